T="bounded exhaustive enumeration of %s, executed on the real code and compared with %s (stateless model checking)"
CHECKS={
"C01":("exploration",T%("all texts over an alphabet of word-break classes","a reference implementation of WB1–WB999"),"All texts up to length 5 (thorough 6) over representatives of each of 21 classes; longer texts over reduced alphabets; periodic texts of up to 70001 code-points; every code-point in contexts of all classes."),
"C02":("exploration",T%("all texts over an alphabet of grapheme-break classes","a reference implementation of GB1–GB999"),"All texts up to length 5 (thorough 6) over representatives of each of 15 classes; longer texts over reduced alphabets; periodic texts of up to 70001 code-points; every code-point in contexts of all classes."),
"C03":("exploration",T%("all code-points","the Unicode Character Database"),"All 1,114,112 code-points; data taken from the UCD which comes with perl, corrected for the differences to the version of the tables."),
"C04":("exploration",T%("all byte sequences over an alphabet with illegal UTF-8, for all breaker combinations and input methods","the text itself"),"Bounded lengths, plus long runs around buffer sizes."),
"C05":("exploration",T%("all scripts of breakers (penalty reports per position) and configurations","the definition of a feasible break"),"Breakers are closed over a menu of report lists with delays up to 3, penalties up to ±2^50, up to 5 breakers."),
"C06":("model_checking",T%("all histories of previous uses of a segmenter","a new segmenter"),"States are the histories of up to two previous uses."),
"C07":("model_checking",T%("all sequences of bounded and unbounded steps","a model with the position in the text as state"),"Texts up to 4/5, call sequences of 5; extreme bounds; bounds around 65536."),
"C08":("fault_enumeration",T%("all fault positions, kinds and persistence","the fault-free execution"),"Texts up to 4/5, a fault at each read."),
"C09":("exploration",T%("all buffer capacities, maxima and segment lengths","the definition of the limit"),"Small sizes exhaustively, and sizes around the default buffer sizes."),
"C10":("exploration",T%("all texts over 7 letters, and all code-points","maximal runs of white space"),"Length up to 6/8; periodic texts up to 64 K."),
}
NOT_APPLICABLE=[]
exec(open('tools/levels_more.py').read())
