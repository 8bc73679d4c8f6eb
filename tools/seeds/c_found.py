import json as _j
_f=V+"/tools/seeds/c_found.json"
if os.path.exists(_f):
    _src=open(V+"/tools/dump_bidi.go.txt").read()
    _src=_src[:_src.index("func main()")].replace('\t"bufio"\n','').replace('\t"strconv"\n','')
    for _id,_x in _j.load(open(_f)).items():
        _b=_x["base"]; _t,_d,_a=_x["args"].rsplit(" ",2)
        seed(_b[0],_b[1],_b[2],_b[3],[tuple(e) for e in _b[4]],_src+'''
func main() {
	got := result(%s, %s, %s, %s)
	if want := %s; got != want {
		fmt.Printf("%%q, must be %%q\\n", got, want)
		os.Exit(1)
	}
}
'''%(_j.dumps(_x["mode"]),_t,_d,_a,_x["want"]))
