#!/usr/bin/perl
# Dumps properties of the Unicode character database which comes with perl (a source which is
# independent of the tables in the repository). Output: one line per range: <first> <last> <value>
use strict; use warnings; use Unicode::UCD qw(prop_invmap);
my ($dir) = @ARGV;
for my $p (qw(Age GCB WB EA Bidi_Class Bidi_Paired_Bracket Bidi_Paired_Bracket_Type InSC InPC Joining_Type
              Emoji Emoji_Presentation Emoji_Modifier Emoji_Modifier_Base Emoji_Component ExtPict Line_Break GC)) {
  my ($list, $map, $fmt, $dflt) = prop_invmap($p);
  die "no $p" unless $list;
  open(my $f, ">", "$dir/".lc($p).".txt") or die;
  my $skip = ($p =~ /^Emoji|^ExtPict/) ? "N" : $dflt;
  for my $i (0..$#$list) {
    my $a = $list->[$i]; last if $a > 0x10FFFF;
    my $b = $i < $#$list ? $list->[$i+1]-1 : 0x10FFFF; $b = 0x10FFFF if $b > 0x10FFFF;
    my $v = $map->[$i];
    next if !defined $v || $v eq $skip;
    if ($fmt eq "a" || $fmt eq "ar") { # adjusted map: value increases with the code-point
      if ($v =~ /^\d+$/ && $v != 0) { for my $c ($a..$b) { printf $f "%X %X %X\n", $c, $c, $v+$c-$a; } }
      next;
    }
    printf $f "%X %X %s\n", $a, $b, $v;
  }
  close $f;
}
