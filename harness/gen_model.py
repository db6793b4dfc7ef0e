"""writes model.c: a stand-in for the robot's model library that records what it is called with"""
out = ["/* generated by gen_model.py */", "#include <string.h>",
       "struct rec { char sym[16]; int n; double in[64]; };",
       "struct rec vf_last; int vf_calls;",
       "static void begin(const char *s) { memset(&vf_last, 0, sizeof vf_last); strcpy(vf_last.sym, s); vf_calls++; }",
       "static void in(const double *p, int n) { for (int i = 0; i < n; i++) vf_last.in[vf_last.n++] = p[i]; }",
       "static void res(double *o, int n) { for (int i = 0; i < n; i++) o[i] = 1000.0 * vf_calls + i; }"]
def fn(name, params, n):
    args, body = [], []
    for i, (k, w) in enumerate(params):
        args.append("double a%d" % i if k == "v" else "const double *a%d" % i)
        body.append("in(%sa%d, %d);" % ("&" if k == "v" else "", i, w))
    args.append("double *o")
    out.append("#ifndef NO_%s" % name)
    out.append('void %s(%s) { begin("%s"); %s res(o, %d); }' % (name, ", ".join(args), name, " ".join(body), n))
    out.append("#endif")
P = lambda n: ("p", n)
V = ("v", 1)
fn("M_NE", [P(7), P(9), V, P(3)], 49)
for pre in ("Ji_J_J", "O_J_J"):
    fn(pre + "1", [], 42)
    for i in range(2, 9):
        fn(pre + str(i), [P(7)], 42)
    fn(pre + "9", [P(7), P(16)], 42)
for i in range(1, 9):
    fn("O_T_J%d" % i, [P(7)], 16)
fn("O_T_J9", [P(7), P(16)], 16)
fn("c_NE", [P(7), P(7), P(9), V, P(3)], 7)
fn("g_NE", [P(7), P(3), V, P(3)], 7)
open("model.c", "w").write("\n".join(out) + "\n")
