/* generated by gen_model.py */
#include <string.h>
struct rec { char sym[16]; int n; double in[64]; };
struct rec vf_last; int vf_calls;
static void begin(const char *s) { memset(&vf_last, 0, sizeof vf_last); strcpy(vf_last.sym, s); vf_calls++; }
static void in(const double *p, int n) { for (int i = 0; i < n; i++) vf_last.in[vf_last.n++] = p[i]; }
static void res(double *o, int n) { for (int i = 0; i < n; i++) o[i] = 1000.0 * vf_calls + i; }
#ifndef NO_M_NE
void M_NE(const double *a0, const double *a1, double a2, const double *a3, double *o) { begin("M_NE"); in(a0, 7); in(a1, 9); in(&a2, 1); in(a3, 3); res(o, 49); }
#endif
#ifndef NO_Ji_J_J1
void Ji_J_J1(double *o) { begin("Ji_J_J1");  res(o, 42); }
#endif
#ifndef NO_Ji_J_J2
void Ji_J_J2(const double *a0, double *o) { begin("Ji_J_J2"); in(a0, 7); res(o, 42); }
#endif
#ifndef NO_Ji_J_J3
void Ji_J_J3(const double *a0, double *o) { begin("Ji_J_J3"); in(a0, 7); res(o, 42); }
#endif
#ifndef NO_Ji_J_J4
void Ji_J_J4(const double *a0, double *o) { begin("Ji_J_J4"); in(a0, 7); res(o, 42); }
#endif
#ifndef NO_Ji_J_J5
void Ji_J_J5(const double *a0, double *o) { begin("Ji_J_J5"); in(a0, 7); res(o, 42); }
#endif
#ifndef NO_Ji_J_J6
void Ji_J_J6(const double *a0, double *o) { begin("Ji_J_J6"); in(a0, 7); res(o, 42); }
#endif
#ifndef NO_Ji_J_J7
void Ji_J_J7(const double *a0, double *o) { begin("Ji_J_J7"); in(a0, 7); res(o, 42); }
#endif
#ifndef NO_Ji_J_J8
void Ji_J_J8(const double *a0, double *o) { begin("Ji_J_J8"); in(a0, 7); res(o, 42); }
#endif
#ifndef NO_Ji_J_J9
void Ji_J_J9(const double *a0, const double *a1, double *o) { begin("Ji_J_J9"); in(a0, 7); in(a1, 16); res(o, 42); }
#endif
#ifndef NO_O_J_J1
void O_J_J1(double *o) { begin("O_J_J1");  res(o, 42); }
#endif
#ifndef NO_O_J_J2
void O_J_J2(const double *a0, double *o) { begin("O_J_J2"); in(a0, 7); res(o, 42); }
#endif
#ifndef NO_O_J_J3
void O_J_J3(const double *a0, double *o) { begin("O_J_J3"); in(a0, 7); res(o, 42); }
#endif
#ifndef NO_O_J_J4
void O_J_J4(const double *a0, double *o) { begin("O_J_J4"); in(a0, 7); res(o, 42); }
#endif
#ifndef NO_O_J_J5
void O_J_J5(const double *a0, double *o) { begin("O_J_J5"); in(a0, 7); res(o, 42); }
#endif
#ifndef NO_O_J_J6
void O_J_J6(const double *a0, double *o) { begin("O_J_J6"); in(a0, 7); res(o, 42); }
#endif
#ifndef NO_O_J_J7
void O_J_J7(const double *a0, double *o) { begin("O_J_J7"); in(a0, 7); res(o, 42); }
#endif
#ifndef NO_O_J_J8
void O_J_J8(const double *a0, double *o) { begin("O_J_J8"); in(a0, 7); res(o, 42); }
#endif
#ifndef NO_O_J_J9
void O_J_J9(const double *a0, const double *a1, double *o) { begin("O_J_J9"); in(a0, 7); in(a1, 16); res(o, 42); }
#endif
#ifndef NO_O_T_J1
void O_T_J1(const double *a0, double *o) { begin("O_T_J1"); in(a0, 7); res(o, 16); }
#endif
#ifndef NO_O_T_J2
void O_T_J2(const double *a0, double *o) { begin("O_T_J2"); in(a0, 7); res(o, 16); }
#endif
#ifndef NO_O_T_J3
void O_T_J3(const double *a0, double *o) { begin("O_T_J3"); in(a0, 7); res(o, 16); }
#endif
#ifndef NO_O_T_J4
void O_T_J4(const double *a0, double *o) { begin("O_T_J4"); in(a0, 7); res(o, 16); }
#endif
#ifndef NO_O_T_J5
void O_T_J5(const double *a0, double *o) { begin("O_T_J5"); in(a0, 7); res(o, 16); }
#endif
#ifndef NO_O_T_J6
void O_T_J6(const double *a0, double *o) { begin("O_T_J6"); in(a0, 7); res(o, 16); }
#endif
#ifndef NO_O_T_J7
void O_T_J7(const double *a0, double *o) { begin("O_T_J7"); in(a0, 7); res(o, 16); }
#endif
#ifndef NO_O_T_J8
void O_T_J8(const double *a0, double *o) { begin("O_T_J8"); in(a0, 7); res(o, 16); }
#endif
#ifndef NO_O_T_J9
void O_T_J9(const double *a0, const double *a1, double *o) { begin("O_T_J9"); in(a0, 7); in(a1, 16); res(o, 16); }
#endif
#ifndef NO_c_NE
void c_NE(const double *a0, const double *a1, const double *a2, double a3, const double *a4, double *o) { begin("c_NE"); in(a0, 7); in(a1, 7); in(a2, 9); in(&a3, 1); in(a4, 3); res(o, 7); }
#endif
#ifndef NO_g_NE
void g_NE(const double *a0, const double *a1, double a2, const double *a3, double *o) { begin("g_NE"); in(a0, 7); in(a1, 3); in(&a2, 1); in(a3, 3); res(o, 7); }
#endif
