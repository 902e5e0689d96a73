"""Small slang programs used to look for a concrete failing input after an obligation failed (never to decide)."""

SCRIPTS = {}


def prog(pid, name, text, expect, rc=0):
    SCRIPTS.setdefault(pid, []).append((name, text.lstrip("\n"), "".join(l + "\n" for l in expect.split()), rc))


HEAD = """
private bool t(string s) modify { print(s); return true; }
private bool f(string s) modify { print(s); return false; }
private int n(int v) modify { print("n" + v); return v; }
"""

prog("C04", "short circuit and truth tables", HEAD + """
public void Main(int argc, string args) modify {
	print(t("a") && t("b")); print(t("c") && f("d")); print(f("e") && t("x")); print(f("g") && f("x"));
	print(t("h") || t("x")); print(t("i") || f("x")); print(f("j") || t("k")); print(f("l") || f("m"));
	print(t("A") !& t("B")); print(t("C") !& f("D")); print(f("E") !& t("x")); print(f("F") !& f("x"));
	print(t("G") !| t("x")); print(f("H") !| f("I"));
	print(!t("N")); print(!f("O"));
}
""", "a b 1 c d 0 e 0 g 0 h 1 i 1 j k 1 l m 0 A B 0 C D 1 E 1 F 1 G 0 H I 1 N 0 O 1")

prog("C04", "truth of values", """
public object O { public int x; }
private void yes(bool b) modify { print(b); }
public void Main(int argc, string args) modify {
	if ( 1 ) { print("i1"); } if ( 0 ) { print("i0"); } if ( -1 ) { print("im"); } if ( 256 ) { print("i256"); } if ( 65536 ) { print("i65536"); }
	if ( 0.5f ) { print("f"); } if ( 0.0f ) { print("f0"); } if ( 0.25d ) { print("d"); } if ( 0.0d ) { print("d0"); }
	int64 big = 65536; big = big * 65536;
	if ( big ) { print("big"); }
	if ( "x" ) { print("s"); } if ( "" ) { print("s0"); }
	O o; if ( o ) { print("null"); } else { print("isnull"); }
	o = new O(); if ( o ) { print("valid"); }
	bool b = true; if ( b ) { print("b"); } if ( !b ) { print("nb"); }
}
""", "i1 im i256 i65536 f d big s isnull valid b")

prog("C10", "order and branches", HEAD + """
public object E { public void Constructor() { } }
private int r1() modify { print("r1"); return 1; print("x"); return 2; }
private int r2(int i) modify { if ( i == 1 ) { print("one"); return 10; } else if ( i == 2 ) { print("two"); return 20; } else { print("other"); } print("end"); return 30; }
private void th() modify throws { print("t1"); throw new E(); print("x"); }
public void Main(int argc, string args) modify throws {
	print("s1"); print("s2"); { print("s3"); { print("s4"); } print("s5"); }
	print(r1()); print(r2(1)); print(r2(2)); print(r2(3));
	try { th(); print("x"); } catch ( E e ) { print("c"); }
	while ( true ) { print("w"); { break; print("x"); } print("x"); }
	int i = 0;
	while ( i < 2 ) { i = i + 1; print("k" + i); if ( i == 1 ) { continue; print("x"); } print("l" + i); }
	print(t("a") ? n(1) : n(2)); print(f("b") ? n(3) : n(4));
	if ( f("c1") ) { print("x"); } print("after");
	assert( t("as") );
	if ( t("q") ) print("single"); else print("x");
	exit(0);
	print("x");
}
""", "s1 s2 s3 s4 s5 r1 1 one 10 two 20 other end 30 t1 c w k1 k2 l2 a n1 1 b n4 4 c1 after as q single")

prog("C11", "loops", HEAD + """
public object E { public void Constructor() { } }
private int w() modify { int i = 0; while ( true ) { i = i + 1; if ( i == 3 ) { return i; } } return 99; }
private int fr() modify { for ( int i = 0; i < 10; i++ ) { if ( i == 4 ) { return i; } } return 99; }
private int sw(int v) modify { switch ( v ) { case 1: { return 100; } case 2: { print("two"); break; } default: { print("def"); return 300; } } return 200; }
private void ft() modify throws { for ( int i = 0; i < 5; i++ ) { print("ft" + i); if ( i == 1 ) { throw new E(); } } print("x"); }
private void wt() modify throws { while ( t("wt") ) { throw new E(); } print("x"); }
private int fe() modify { List<String> l = new List<String>(); l.push_back(new String("1")); l.push_back(new String("2")); l.push_back(new String("3")); foreach ( String v : l ) { print("v" + string v); string w = string v; if ( w == "2" ) { return 2; } } return 0; }
public void Main(int argc, string args) modify throws {
	int i = 0;
	while ( i < 3 ) { print("a" + i); i = i + 1; }
	while ( f("never") ) { print("x"); }
	for ( int j = 0; j < 3; j++ ) { if ( j == 1 ) { continue; } print("b" + j); }
	for ( int j = 5; j < 3; j++ ) { print("x"); }
	for ( int j = 0; j < 2; j++ ) { for ( int k = 0; k < 3; k++ ) { if ( k == 1 ) { break; } print("c" + j + k); } print("d" + j); }
	print(w()); print(fr()); print(sw(1)); print(sw(2)); print(sw(3));
	for ( int j = 0; j < 2; j++ ) { switch ( j ) { case 0: { print("zero"); break; } case 1: { print("one"); break; } } print("s" + j); }
	switch ( n(7) ) { case 7: { print("first"); break; } case 7: { print("x"); break; } }
	switch ( n(8) ) { case 7: { print("x"); break; } } print("nomatch");
	try { ft(); } catch ( E e ) { print("ftc"); }
	try { wt(); } catch ( E e ) { print("wtc"); }
	List<String> l = new List<String>(); l.push_back(new String("1")); l.push_back(new String("2")); l.push_back(new String("3"));
	print(fe());
	foreach ( String v : l ) { string w = string v; if ( w == "2" ) { continue; } print("e" + string v); }
	foreach ( String v : l ) { string w = string v; if ( w == "2" ) { break; } print("g" + string v); }
	for ( int j = 0; j < 3; j++ ) { print("p" + j); if ( j == 1 ) { exit(0); } }
	print("x");
}
""", "a0 a1 a2 never b0 b2 c00 d0 c10 d1 3 4 100 two 200 def 300 zero s0 one s1 n7 first n8 nomatch ft0 ft1 ftc wt wtc v1 v2 2 e1 e3 g1 p0 p1")
SCRIPTS["C11"][-1] = (SCRIPTS["C11"][-1][0], "import System.Collections.List;\nimport System.String;\n" + SCRIPTS["C11"][-1][1]) + SCRIPTS["C11"][-1][2:]

prog("C12", "try catch finally", HEAD + """
public object A { public int v; public void Constructor(int x) { v = x; } }
public object B { public void Constructor() { } }
public object D extends A { public void Constructor(int x) { v = x; } }
private void a(int x) modify throws { print("a"); throw new A(x); }
private void b() modify throws { print("b"); throw new B(); }
private int r1() modify throws { try { return 1; } finally { print("f1"); } return 9; }
private int r2() modify throws { try { a(2); } catch ( A e ) { return 20 + e.v; } finally { print("f2"); } return 9; }
private int r3() modify throws { try { a(3); } catch ( B e ) { print("x"); } finally { print("f3"); } return 9; }
private int r4() modify throws { try { print("r4"); } finally { return 40; } return 9; }
private int r5() modify throws { try { a(5); } catch ( A e ) { b(); } finally { print("f5"); } return 9; }
private void r6() modify throws { try { a(6); } catch ( B e ) { print("x"); } catch ( A e ) { print("cA" + e.v); } catch { print("x"); } print("r6"); }
private void r7() modify throws { try { b(); } catch ( A e ) { print("x"); } catch { print("any"); } finally { print("f7"); } }
private void r8() modify throws { for ( int i = 0; i < 3; i++ ) { try { if ( i == 1 ) { break; } print("i" + i); } finally { print("fi" + i); } } }
private void r9() modify throws { for ( int i = 0; i < 2; i++ ) { try { if ( i == 0 ) { continue; } print("j" + i); } finally { print("fj" + i); } } }
private void r10() modify throws { try { try { a(10); } finally { print("in"); } } catch ( A e ) { print("x" + e.v); } }
private int r11() modify throws { try { a(11); } catch ( A e ) { throw new B(); } finally { return 110; } return 9; }
public void Main(int argc, string args) modify throws {
	print(r1()); print(r2());
	try { print(r3()); } catch ( A e ) { print("c3" + e.v); }
	print(r4());
	try { print(r5()); } catch ( B e ) { print("c5"); } catch ( A e ) { print("x"); }
	r6(); r7(); r8(); r9(); r10(); print(r11());
	try { print("ok"); } catch { print("x"); } finally { print("fin"); }
	try { try { a(1); } catch ( A e ) { throw; } } catch ( A e ) { print("re" + e.v); }
	try { throw new D(4); } catch ( A e ) { print("base" + e.v); }
}
""", "f1 1 a f2 22 a f3 c33 r4 40 a b f5 c5 a cA6 r6 b any f7 i0 fi0 fi1 fj0 j1 fj1 a in a 110 ok fin a re1 base4")

prog("C13", "names after every way out", HEAD + """
public object E { public void Constructor() { } }
private void th() modify throws { int x = 7; { int y = 8; throw new E(); } }
private int ret() modify { int x = 5; for ( int i = 0; i < 3; i++ ) { int x2 = i; while ( true ) { int z = 1; return x; } } return 0; }
private int rec(int k) modify { if ( k == 0 ) { return 0; } int x = rec(k - 1); return x + k; }
public object I { public int hasNextCount; public void Constructor() { } }
public void Main(int argc, string args) modify throws {
	int x = 1;
	for ( int i = 0; i < 4; i++ ) { int y = i; if ( i == 1 ) { continue; } if ( i == 2 ) { break; } }
	for ( int i = 0; i < 2; i++ ) { int y = i; { int z = y; } }
	int y = 2;
	while ( true ) { int z = 3; { int q = 4; break; } }
	int z = 5;
	try { th(); } catch ( E e ) { int q = 1; }
	try { int q = 2; th(); } catch ( E e ) { } finally { int q = 3; }
	int q = 6;
	switch ( x ) { case 1: { int v = 1; break; } default: { int v = 2; break; } }
	int v = 7;
	print("" + x + y + z + q + v); print(ret()); print(rec(5));
	for ( int i = 0; i < 3; i++ ) { try { int w = i; if ( i == 1 ) { continue; } th(); } catch ( E e ) { int w = 4; } }
	int w = 8; int i = 9; print("" + w + i);
}
""", "12567 5 15 89")

prog("C14", "operators and assignment", HEAD + """
private string m;
private int s(int v) modify { m = m + v; return v; }
public void Main(int argc, string args) modify {
	m = "";
	print(s(7) - s(2)); print(s(9) / s(3)); print(s(9) % s(4)); print(s(2) * s(3)); print(s(2) + s(3)); print(m); m = "";
	print(s(3) < s(4)); print(s(5) > s(4)); print(s(3) == s(4)); print(s(3) != s(4)); print(s(3) <= s(3)); print(s(2) >= s(3)); print(m); m = "";
	int a = 5; int b = 3; int c = a - b; print("" + a + b + c);
	c = a; c = c + 1; print("" + a + c);
	print(-a); print(a); print(a++); print(a); print(a--); print(a);
	a += s(2); print(a); a -= 1; print(a); a *= 3; print(a); a /= 2; print(a); a %= 4; print(a);
	string t = "x"; t += "y"; print(t); print("p" + s(1) + s(2)); print(m);
	int k = s(4); print(k); k = s(6); print(k); print(m);
	print(1 - 2 - 3); print(2 + 3 * 4); print((2 + 3) * 4);
}
""", "5 3 1 6 5 7293942323 1 1 0 1 1 0 345434343323 532 56 -5 5 6 6 5 5 7 6 18 9 1 xy p12 212 4 6 21246 -4 14 20")

prog("C11", "exit leaves a while loop", HEAD + """
private void run() modify { int i = 0; while ( t("w" + i) ) { i = i + 1; for ( int j = 0; j < 2; j++ ) { if ( i == 2 ) { exit(0); } } } }
public void Main(int argc, string args) modify { run(); print("x"); }
""", "w0 w1")

prog("C11", "leaving foreach and switch", "import System.Collections.List;\nimport System.String;\n" + HEAD + """
public object E { public void Constructor() { } }
private List<String> mk() modify { List<String> l = new List<String>(); l.push_back(new String("1")); l.push_back(new String("2")); return l; }
private void th() modify throws { List<String> l = mk(); foreach ( String s : l ) { print("f" + string s); throw new E(); } print("x"); }
private int sr(int v) modify throws { switch ( v ) { case 1: { throw new E(); } case 2: { return 22; } default: { break; } } return 33; }
private int lo() modify { for ( int i = 0; i < 3; i++ ) { switch ( i ) { case 1: { return 11; } } print("l" + i); } return 0; }
private int wh() modify throws { while ( true ) { while ( true ) { break; } print("wh"); try { throw new E(); } catch ( E e ) { return 4; } } return 0; }
public void Main(int argc, string args) modify throws {
	try { th(); print("x"); } catch ( E e ) { print("c1"); }
	try { print(sr(1)); } catch ( E e ) { print("c2"); }
	print(sr(2)); print(sr(3)); print(lo()); print(wh());
	List<String> l = mk();
	foreach ( String s : l ) { foreach ( String u : l ) { if ( t("u" + string u) ) { break; } } print("o" + string s); }
	foreach ( String s : l ) { print("e" + string s); exit(0); }
	print("x");
}
""", "f1 c1 c2 22 33 l0 11 wh 4 u1 o1 u1 o2 e1")

prog("C12", "exceptions from catch and finally", HEAD + """
public object A { public int v; public void Constructor(int x) { v = x; } }
public object B { public void Constructor() { } }
private void c1() modify throws { try { throw new A(1); } catch ( A e ) { print("c" + e.v); throw new B(); } catch ( B e ) { print("x"); } catch { print("x"); } finally { print("f1"); } print("x"); }
private void c2() modify throws { try { throw new A(2); } catch { print("any"); } finally { throw new B(); } print("x"); }
private int c3() modify throws { try { throw new A(3); } catch ( A e ) { return e.v; } finally { print("f3"); } return 9; }
private int c4() modify throws { while ( true ) { try { throw new A(4); } catch ( A e ) { break; } finally { print("f4"); } } return 44; }
private int c5() modify throws { for ( int i = 0; i < 2; i++ ) { try { throw new A(i); } catch ( A e ) { continue; } finally { print("f5" + i); } print("x"); } return 55; }
private int c6() modify throws { try { try { throw new A(6); } catch ( B e ) { print("x"); } finally { print("f6"); } } catch ( A e ) { return 60 + e.v; } return 9; }
private int c7() modify throws { try { return 7; } catch { print("x"); } finally { print("f7"); } return 9; }
public void Main(int argc, string args) modify throws {
	try { c1(); } catch ( A e ) { print("x"); } catch ( B e ) { print("b1"); }
	try { c2(); } catch ( B e ) { print("b2"); }
	print(c3()); print(c4()); print(c5()); print(c6()); print(c7());
	try { try { throw new A(8); } catch ( A e ) { try { throw new B(); } catch ( B f ) { print("in"); } print("a" + e.v); } } catch { print("x"); }
	try { exit(0); } finally { print("fx"); }
	print("x");
}
""", "c1 f1 b1 any b2 f3 3 f4 44 f50 f51 55 f6 66 f7 7 in a8 fx")

prog("C14", "assignments as values", HEAD + """
public object O { public int v; public void Constructor(int x) { v = x; } public int get() const { return v; } }
private int m;
private int inc() modify { m = m + 1; return m; }
public void Main(int argc, string args) modify {
	double d = 0.0d; int i = 0; m = 0;
	print((d = 7) / 2); print(i = inc()); print(i); print(m); print(i = i + inc()); print(m);
	O a = new O(1); O b = new O(2); O c = a; c = b; print("" + a.get() + b.get() + c.get());
	int x = 1; int y = x; y = 5; print("" + x + y);
	print(7 & 3); print(4 | 1);
	print(inc() - inc() * inc()); print(inc() + inc() + inc());
	string s = "a"; string u = s; u = u + "b"; print(s); print(u);
	print(string 5 + 1); print(typeid(x)); print(a is O); print(typeid(a));
	bool q = 1 < 2; print(q); int64 l = 3; l = l - 5; print(l);
}
""", "3.5 1 1 1 3 2 122 15 3 5 -17 21 a ab 6 int 1 O 1 -2")


def for_property(pid):
    return SCRIPTS.get(pid, [])

prog("C08", "shadowing and members", """
private int g = 7;
private int y = 500;
public object A { public int x; protected int y; public void Constructor() { x = 1; y = 2; } public int yy() const { return y; } }
public object B extends A { public int z; public void Constructor() { base.Constructor(); z = 3; } public int sum() const { return x + y + z + g; } public int loc() const { int x = 50; return x + this.x; } }
public object C { public B b; public void Constructor() { b = new B(); } }
private int use(int v) modify { int w = v + 1; { int v2 = w; { int v3 = v2 + v; return v3 + g; } } return 0; }
public void Main(int argc, string args) modify {
	int a = 1;
	{ int b = 2; { int c = 3; print(a + b + c); } { int c = 4; print(c); } }
	for ( int i = 0; i < 2; i++ ) { int t = i; print(t); }
	for ( int i = 5; i < 6; i++ ) { int t = i; print(t); }
	{ int t = 9; print(t); }
	print(g); g = 8; print(g);
	print(use(1)); print(use(2));
	B b = new B(); print(b.sum()); print(b.loc()); print(b.x); print(b.yy());
	C c = new C(); print(c.b.x); print(c.b.z); c.b.z = 11; print(c.b.z); print(c.b.sum());
	{ int g = 100; print(g); } print(g);
}
""", "6 4 0 1 5 9 7 8 11 13 14 51 1 2 1 3 11 22 100 8")

prog("C09", "arguments, defaults and overloads", """
public object A { protected int v; public void Constructor(int x = 4) { v = x; } public int get() const { return v; } public string who() const { return "A"; } public final string fin() const { return "fA"; } public string only() const { return "oA"; } }
public object B extends A { public void Constructor(int x = 9) { base.Constructor(x); } public string who() const { return "B"; } }
private int cnt = 0;
private int next() modify { cnt = cnt + 1; return cnt; }
private string three(int a, int b, int c) const { return "" + a + b + c; }
private string def(int a, string b = "x", int c = 5) const { return "" + a + b + c; }
private string ov(int a) const { return "int"; }
private string ov(string a) const { return "string"; }
private string ov(int a, int b) const { return "intint"; }
private string ov() const { return "none"; }
private int change(int a) const { a = a + 1; return a; }
private void alter(A a modify) modify { a = new A(77); }
private int fac(int n) const { if ( n < 2 ) { return 1; } return n * fac(n - 1); }
private void nothing(int a) modify { cnt = a; }
public void Main(int argc, string args) modify {
	print(three(1, 2, 3)); print(three(next(), next(), next()));
	print(def(1)); print(def(1, "y")); print(def(1, "y", 7)); print(def(2));
	print(ov(1)); print(ov("a")); print(ov(1, 2)); print(ov());
	int k = 1; print(change(k)); print(k);
	print(fac(5)); nothing(42); print(cnt);
	A a = new A(); print(a.get()); a = new A(6); print(a.get());
	B b = new B(); print(b.get()); print(b.who()); print(b.fin()); print(b.only());
	B c = new B(3); print(c.get()); print(a.who());
}
""", "123 123 1x5 1y5 1y7 2x5 int string intint none 2 1 120 42 4 6 9 B fA oA 3 A")
prog("C09", "object arguments, omitted arguments and final methods", """
public object A { public int v; public void Constructor(int x) { v = x; } public string f() const { return "fA"; } public final string g() const { return "gA"; } }
public object B extends A { public void Constructor(int x) { base.Constructor(x); } public string f() const { return "fB"; } public string g() const { return "gB"; } }
public object C extends B { public void Constructor(int x) { base.Constructor(x); } public string f() const { return "fC"; } }
private int first(A a, A b) const { return a.v; }
private int second(A a, A b) const { return b.v; }
private int third(A a, int i, A b) const { return b.v; }
private bool given(A a, A b = null) const { return !(b == null); }
private string pick(int a, int b = 2, int c) const { return "three"; }
private string pick(int a, int d = 2) const { return "two"; }
private void set(A a modify, int x) modify { a.v = x; }
private A back(A a) const { return a; }
public void Main(int argc, string args) modify {
	A x = new A(1); A y = new A(2);
	print(first(x, y)); print(second(x, y)); print(third(x, 7, y)); print(second(y, x));
	print(given(x)); print(given(x, y));
	print(pick(1, 2, 3)); print(pick(1)); print(pick(1, 2));
	set(x, 9); print(x.v); print(y.v); A z = back(y); print(z.v);
	B b = new B(3); C c = new C(4);
	print(b.f()); print(b.g()); print(c.f()); print(c.g()); print(x.f()); print(b.v); print(c.v);
}
""", "1 2 2 1 0 1 three two two 9 2 2 fB gA fC gA fA 3 4")
prog("C07", "objects live as long as references to them", """
public object A { public int v; public void Constructor(int x) { v = x; } public void Destructor() { print("D" + v); } public A me() const { return A this; } }
public object H { public A a; public void Constructor(A x) { a = x; } public void Destructor() { print("H" + a.v); } }
private A keep(A a) const { return a; }
private void scope() modify { A t = new A(10); print("in"); }
private A make(int i) const { A t = new A(i); return t; }
private void thrower() modify throws { A t = new A(30); throw 1; }
private int len(A a) const { return a.v; }
public void Main(int argc, string args) modify throws {
	A x = new A(1);
	A y = x;
	print("a");
	x = new A(2);
	print("b");
	y = x;
	print("c");
	x = y;
	print("d");
	scope();
	A z = make(20);
	print("e");
	print(len(new A(40)));
	print("f");
	z = keep(z);
	print(z.v);
	try { thrower(); } catch ( int e ) { print("caught"); }
	{ A q = new A(50); A r = q; print("g"); }
	H h = new H(new A(60));
	print("h");
	h = new H(z);
	print("i");
	for ( int i = 0; i < 2; i++ ) { A l = new A(70 + i); }
	x = x;
	print(x.v);
}
""", "a b D1 c d in D10 e D40 40 f 20 D30 caught g D50 h H60 D60 i D70 D71 2 H20 D2 D20")
prog("C07", "a destructor takes references to its object", """
public object A { public int v; public void Constructor(int x) { v = x; } public void Destructor() { print("D" + v); A b = A this; A c = b; print(c.v); } }
private void f() modify { A x = new A(1); A y = x; print("in"); }
public void Main(int argc, string args) modify {
	f(); f();
	A z = new A(2); z = new A(3);
	print("end");
}
""", "in D1 1 in D1 1 D2 2 end D3 3")
prog("C21", "objects of left scopes", """
public object A {
	public int v;
	public void Constructor(int x) { v = x; }
	public void Destructor() { print("g" + string v); }
}
private void call(int n) modify throws { A a = new A(n); if ( n > 50 ) { A b = new A(n + 1); throw n; } print("c"); }
private int ret(int n) modify { { A a = new A(n); { A b = new A(n + 1); return a.v; } } }
public void Main(int argc, string args) modify throws {
	{ A a = new A(1); print("b"); }
	for ( int i = 2; i < 4; i++ ) { A a = new A(i); if ( i == 2 ) { continue; } break; }
	int j = 4;
	while ( j < 6 ) { A a = new A(j); j++; }
	if ( j > 0 ) { A a = new A(10); } else { A a = new A(11); }
	if ( j < 0 ) { A a = new A(12); } else { A a = new A(13); }
	switch ( j ) { case 6: { A a = new A(14); break; } }
	try { A a = new A(20); throw 1; } catch ( int e ) { A a = new A(21); print("x"); } finally { A a = new A(22); }
	call(30);
	try { call(60); } catch ( int e ) { print(e); }
	print(ret(40));
	print("end");
}
""", "b g1 g2 g3 g4 g5 g10 g13 g14 g20 x g21 g22 c g30 g61 g60 60 g41 g40 40 end")

prog("C07", "locals end with their scope", """
public object A {
	public int v;
	public void Constructor(int x) { v = x; }
	public void Destructor() { print("g" + string v); }
}
private void call(int n) modify throws { A a = new A(n); if ( n > 50 ) { A b = new A(n + 1); throw n; } print("c"); }
private int ret(int n) modify { { A a = new A(n); { A b = new A(n + 1); return a.v; } } }
public void Main(int argc, string args) modify throws {
	{ A a = new A(1); print("b"); }
	for ( int i = 2; i < 4; i++ ) { A a = new A(i); if ( i == 2 ) { continue; } break; }
	int j = 4;
	while ( j < 6 ) { A a = new A(j); j++; }
	if ( j > 0 ) { A a = new A(10); } else { A a = new A(11); }
	if ( j < 0 ) { A a = new A(12); } else { A a = new A(13); }
	switch ( j ) { case 6: { A a = new A(14); break; } }
	try { A a = new A(20); throw 1; } catch ( int e ) { A a = new A(21); print("x"); } finally { A a = new A(22); }
	call(30);
	try { call(60); } catch ( int e ) { print(e); }
	print(ret(40));
	print("end");
}
""", "b g1 g2 g3 g4 g5 g10 g13 g14 g20 x g21 g22 c g30 g61 g60 60 g41 g40 40 end")

prog("C21", "nested calls and locals", """
private int cnt = 0;
private int sum(int n) modify { int k = n * 2; cnt = cnt + 1; if ( n == 0 ) { return 0; } int r = sum(n - 1); return r + k; }
private int fib(int n) const { if ( n < 2 ) { return n; } int a = fib(n - 1); int b = fib(n - 2); return a + b; }
private int deep(int n) modify throws { int k = n; if ( n == 3 ) { throw 7; } { int k2 = n; deep(n + 1); } return k; }
private bool even(int n) const { if ( n == 0 ) { return true; } return odd(n - 1); }
private bool odd(int n) const { if ( n == 0 ) { return false; } return even(n - 1); }
public void Main(int argc, string args) modify throws {
	int k = 5;
	print(sum(6)); print(cnt); print(k);
	print(fib(10));
	try { deep(0); } catch ( int e ) { print(e); print(k); }
	for ( int i = 0; i < 3; i++ ) { int k3 = fib(i + 3); print(k3); }
	print(even(7)); print(odd(7)); print(k);
	while ( true ) { if ( even(4) ) { break; } }
	print("end");
}
""", "42 7 5 55 7 5 2 3 5 0 1 5 end")

prog("C23", "grouping of operators", HEAD + """
public void Main(int argc, string args) modify {
	print(2 + 3 * 4); print(2 * 3 + 4); print((2 + 3) * 4); print(20 - 5 - 3); print(20 - (5 - 3));
	print(100 / 10 / 2); print(100 / (10 / 2)); print(17 % 10 % 4); print(2 * 9 % 4); print(20 / 3 * 3); print(7 - 2 + 1);
	print(1 + 6 / 3 - 2 * 2); print(1 + 2 < 4); print(10 - 3 > 2 * 3); print(1 + 1 == 2); print(2 * 3 != 3 + 3); print(5 <= 2 + 3); print(6 >= 7);
	print(1 < 2 == true);
	print(true || false && false); print(t("a") || t("x") && f("y")); print(false && true || true); print((true || false) && false);
	print(-2 + 5); print(-2 * -3); print(3 - (-2)); print(-(2 + 3)); print(!true || true); print(!(true || true)); print(!false && false);
	int i = 3;
	print(-i + 1); print(i++ + 1); print(i); print(i-- - 1); print(i);
	print(1 < 2 ? 10 + 1 : 20 + 1); print(1 > 2 ? 10 : 20 * 2); print(true ? 1 : false ? 2 : 3); print(false ? 1 : false ? 2 : 3);
	print(n(1) + n(2) * n(3)); print(n(8) / n(4) - n(1));
	int a = 0; int b = 0;
	a = b = 4 + 1;
	print(a + b);
}
""", "14 10 20 12 18 5 20 3 2 18 6 -1 1 1 1 0 1 0 1 0 a y 0 1 0 3 6 5 -5 1 0 0 -2 5 4 2 3 1 0 1 3 n1 n2 n3 7 n8 n4 n1 1 10")

prog("C23", "literals", """
public void Main(int argc, string args) modify {
	print(12345); print(0); print(2147483647); print(32767); print(32768); print(-32768); print(-1);
	print(1.5f); print(2.25d); print(true); print(false); print("a b" == "a b"); print("x" + "y"); print("7" + 7);
}
""", "12345 0 2147483647 32767 32768 -32768 -1 1.5 2.25 1 0 1 xy 77")

prog("C24", "statements and their parts", HEAD + """
public object E { public int v; public void Constructor(int x) { v = x; } }
private int ret() modify { return 4; }
private void nothing() modify { print("n"); return; }
private void go(int k) modify throws { if ( k == 1 ) throw new E(1); if ( k == 2 ) throw 2; if ( k == 3 ) throw "three"; print("no"); }
public void Main(int argc, string args) modify throws {
	if ( true ) print("a"); else print("x");
	if ( false ) print("x"); else print("b");
	if ( true ) if ( false ) print("x"); else print("c");
	if ( false ) print("x"); else if ( true ) { print("d"); } else { print("x"); }
	for ( int i = 0; i < 3; i++ ) { if ( i == 1 ) continue; print("i" + i); }
	for ( int j = 5; j > 3; j-- ) print("j" + j);
	int k = 0;
	for ( ; k < 2; k++ ) { print("k" + k); }
	while ( k < 4 ) k++;
	print(k);
	while ( true ) { while ( true ) { break; } print("o"); break; }
	switch ( k ) { case 3: { print("x"); break; } case 4: { print("e"); break; } default: { print("x"); break; } }
	switch ( k ) { case 3: { print("x"); break; } default: { print("f"); break; } case 9: { print("x"); break; } }
	switch ( 1 ) { case 1: { print("g"); break; } case 2: { print("h"); break; } case 3: { print("x"); break; } }
	try { go(0); go(1); } catch ( int e ) { print("x"); } catch ( E e ) { print("E" + e.v); } catch { print("x"); } finally { print("f1"); }
	try { go(2); } catch ( int e ) { print("I" + e); } catch ( E e ) { print("x"); } finally { print("f2"); }
	try { go(3); } catch ( int e ) { print("x"); } catch { print("any"); } finally { print("f3"); }
	try { go(0); } catch { print("x"); }
	print(ret()); nothing();
	{ } { print("q"); } ; 
	assert( k == 4 );
	delete k;
	print("end");
}
""", "a b c d i0 i2 j5 j4 k0 k1 4 o e f g no E1 f1 I2 f2 any f3 no 4 n q end")

for _name, _text in (("break outside of a loop", "break;"), ("continue outside of a loop", "continue;"), ("missing semicolon", "print(\"a\") print(\"b\");"),
                     ("unclosed condition", "if ( true { print(\"a\"); }"), ("two defaults", "switch ( 1 ) { default: { print(\"a\"); break; } default: { print(\"b\"); break; } }"),
                     ("two finally blocks", "try { print(\"a\"); } finally { print(\"b\"); } finally { print(\"c\"); }"), ("case without colon", "switch ( 1 ) { case 1 { print(\"a\"); break; } }"),
                     ("value returned by void", "return 1;"), ("statement in a switch", "switch ( 1 ) { print(\"a\"); }")):
    prog("C24", _name + " is refused", "public void Main(int argc, string args) modify throws {\n\t" + _text + "\n}\n", "", 255)


def grouping():
    """every two and three operators of the number levels, computed by the rules of the property"""
    import itertools
    level = {"*": 2, "/": 2, "%": 2, "+": 1, "-": 1, "&": 1, "|": 1}

    def app(o, a, b):
        if o in "/%":
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return q if o == "/" else a - q * b
        return {"*": a * b, "+": a + b, "-": a - b, "&": a & b, "|": a | b}[o]

    def value(xs, os):
        xs, os = list(xs), list(os)
        for l in (2, 1):
            i = 0
            while i < len(os):
                if level[os[i]] == l:
                    try:
                        xs[i:i + 2] = [app(os[i], xs[i], xs[i + 1])]
                    except ZeroDivisionError:
                        return None
                    del os[i]
                else:
                    i += 1
        return xs[0]
    lines, want = [], []
    for os in list(itertools.product(level, repeat=2)) + [o for o in itertools.product(level, repeat=3) if len({level[x] for x in o}) > 1 or o[0] == o[2]]:
        for xs in ((29, 7, 3, 2), (6, 5, 12, 9)):
            xs = xs[:len(os) + 1]
            v = value(xs, os)
            if v is not None:
                lines.append("\tprint(%s);" % " ".join(str(x) + (" " + o if o else "") for x, o in zip(xs, os + ("",))).strip())
                want.append(str(v))
    prog("C23", "all orders of number operators", "\npublic void Main(int argc, string args) modify {\n" + "\n".join(lines) + "\n}\n", " ".join(want))


grouping()

prog("C23", "signs and marks behind a term", """
public object O { public int v; public void Constructor(int x) { v = x; } public int get() const { return v; } }
public void Main(int argc, string args) modify {
	int i = 3;
	print(-(i)++); print(-(i + 1)--); print(-i); print(2 - (i)++); print(2 * (i)-- + 1); print(-i * 2); print(!(i == 3) || true);
	O o = new O(4);
	print(-o.v + 1); print(-o.get() * 2); print(1 + o.v * o.get()); print(2 * (o).get() - 1); print(o.v == 4 && o.get() == 4);
	print(o is O && true); print(true && o is O);
	print((1 + 1 == 3) ? 5 : 6); print(false ? 5 : 6 + 1); print(true ? 5 + 1 : 6);
}
""", "-2 -5 -3 -2 5 -6 1 -3 -8 17 7 1 1 1 6 7 6")

prog("C24", "order of branches", """
public void Main(int argc, string args) modify throws {
	for ( int i = 0; i < 5; i++ ) {
		switch ( i ) { case 1: { print("1"); break; } default: { print("d"); break; } case 2: { print("2"); break; } case 3: { print("3"); break; } }
		switch ( i ) { default: { print("D"); break; } case 3: { print("A"); break; } }
		switch ( i ) { case 0: { print("z"); break; } case 4: { print("F"); break; } }
		switch ( i ) { default: { print("o"); break; } }
	}
	try { throw 1; } finally { print("f"); } catch ( int e ) { print("c" + e); }
	try { throw 1; } catch ( string e ) { print("x"); } finally { print("g"); } catch ( int e ) { print("e" + e); } catch { print("x"); }
	try { try { throw "in"; } finally { print("h"); } } catch ( string e ) { print(e); }
	if ( false ) { } else { print("i"); }
	if ( true ) { } else { print("x"); }
	for ( int i = 0; ; i++ ) { if ( i == 2 ) { break; } else { print("j" + i); continue; } }
	for ( ; ; ) { break; }
	for ( int i = 0; i < 2; ) { i++; print("k" + i); }
	int i = 7; { int k = 8; print(k); } print(i);
	assert( i == 7, "seven" );
	print("end");
}
""", "d D z o 1 D o 2 D o 3 A o d D F o c1 f e1 g h i j0 j1 k1 k2 8 7 end")

for _name, _text in (("break in an else branch", "if ( argc > 9 ) { print(\"x\"); } else { break; }"), ("continue in an if branch", "if ( argc > 9 ) continue;"), ("continue in an else branch", "if ( argc > 9 ) print(1); else continue;"),
                     ("break in a try block", "try { break; } catch { print(1); }"), ("break in a catch block", "try { print(1); } catch { break; }"), ("break in a block", "{ print(1); break; }"),
                     ("break after a loop", "while ( false ) { print(1); } break;"), ("a loop without condition", "while { print(1); }"),
                     ("a name of a for loop after it", "for ( int i = 0; i < 1; i++ ) { } print(i);"), ("a caught name after its block", "try { throw 1; } catch ( int e ) { } print(e);"),
                     ("a name of a block after it", "{ int k = 1; } print(k);"), ("assert without parentheses", "assert true;"), ("print without parentheses", "print 1;"), ("exit without parentheses", "exit 1;"),
                     ("print without semicolon", "print(1) { }"), ("unclosed print", "print(1;"), ("unclosed assert", "assert(true;"), ("unclosed for", "for ( int i = 0; i < 1; i++ { print(i); }"), ("a stray word", "else print(1);")):
    prog("C24", _name + " is refused", "public void Main(int argc, string args) modify throws {\n\t" + _text + "\n}\n", "", 255)


CONST = """
public object B {
	public int v = 1;
	private int mP = 2;
	private B mB;
	public void Constructor() { }
	public void set() modify { v = 7; }
	public int get() const { return v; }
	public B inner() const { return mB; }
	public void all() modify { v = 2; this.v = 3; v++; this.v += 1; mP = v; mB = new B(); mB.v = 9; this.mB.v++; set(); this.set(); mB.set(); print(v + mP + mB.v); }
	@
}
private void byref(int x modify ref) modify { x = 5; }
private void byval(int x modify) modify { x = 5; print(x); }
private void byconst(int x const ref) modify { print(x); }
private void number(int x const, B o const, int y) modify { y = x + o.get(); print(y); #}
public void Main(int argc, string args) modify throws {
	int c const = 1;
	int m = 2;
	B b const = new B();
	B n = new B();
	$
}
"""


def constprog(name, main="", member="", fn="", ok=None):
    text = CONST.replace("@", member).replace("#", fn).replace("$", main)
    prog("C20", name if ok is not None else name + " is refused", text, "" if ok is None else ok, 255 if ok is None else 0)


constprog("changes of modifiable data", "m = 3; m += 2; m++; print(m); byref(m); n.v = 3; n.v++; n.v *= 2; n.set(); print(n.v); n = new B(); n.all(); byval(c); byconst(c); number(c, b, m); var k = n; k.v = 6; print(n.v); "
          "var d const = b; print(d.get()); print(b.get() + b.v + c); byref(n.v);", ok="6 7 19 5 1 2 6 1 3")
for _name, _text in (("assignment to a const variable", "c = 2;"), ("increment of a const variable", "c++;"), ("decrement of a const variable", "c--;"), ("addition to a const variable", "c += 1;"),
                     ("assignment in an expression", "m = 1 + (c = 3);"), ("assignment in a condition", "if ( c = 3 ) { }"), ("increment in an argument", "byval(c++);"), ("const reference argument", "byref(c);"),
                     ("assignment to a member of a const object", "b.v = 3;"), ("increment of a member of a const object", "b.v++;"), ("subtraction from a member of a const object", "b.v -= 1;"),
                     ("modifying call on a const object", "b.set();"), ("member of a const object as reference", "byref(b.v);"), ("const object replaced", "b = new B();"), ("modifiable name for a const object", "var k = b;"),
                     ("const var", "var k const = 1; k = 2;"), ("const loop variable", "for ( int i const = 0; i < 2; i++ ) { }"), ("const variable in a lower block", "{ { c = 5; } }"), ("const variable as bit pattern", "c |= 1;")):
    constprog(_name, _text)
for _name, _text in (("member", "v = 3;"), ("member by this", "this.v = 3;"), ("increment of a member", "v++;"), ("decrement by this", "this.v--;"), ("addition to a member", "v += 2;"), ("product by this", "this.v *= 2;"),
                     ("modifying call", "set();"), ("modifying call by this", "this.set();"), ("modifying call on a member", "mB.set();"), ("member of a member", "mB.v = 3;"), ("increment of a member of a member", "this.mB.v++;"),
                     ("member of a member of a member", "mB.mB.v = 3;"), ("member in an expression", "print(v = 4);")):
    constprog(_name + " in a const method", member="public void no() const { " + _text + " }")
constprog("members read in a const method", "n.yes();", member="public void yes() const { int v2 = v; v2++; int mP = 4; mP++; print(v2 + mP + this.v + get() + this.get()); }", ok="10")
constprog("member hidden by a local", "n.yes();", member="public void yes() const { int v = 5; v += 2; print(v); }", ok="7")
for _name, _text in (("const parameter", "x = 3;"), ("const parameter increment", "x++;"), ("const object parameter", "o.set();"), ("member of a const parameter", "o.v = 3;")):
    constprog(_name + " changed", fn=_text)


prog("C08", "the rest of a dotted name outside its scope is refused", """
public object B { public int v = 5; public void Constructor() { } }
public void y() modify { print("global y"); }
public object A {
	public B x;
	public void Constructor() { x = new B(); }
	public void go() modify { x.y(); }
}
public void Main(int argc, string args) modify {
	A a = new A();
	a.go();
}
""", "", 255)

CALLED = """
public object A { public int v = 5; public void Constructor() { } public void Constructor(int x) { v = x; } }
private int f() { return 0; }
private int f(int a) { return a; }
private int f(int a, int b) { return a * 10 + b; }
private int f(int a, int b, int c) { return a * 100 + b * 10 + c; }
public void Main(int argc, string args) modify throws {
	int x = 1;
	$
}
"""
prog("C23", "arguments", CALLED.replace("$", "print(f()); print(f(4)); print(f(1, 2)); print(f(3, 2, 1)); print(f(f(1), f(f(), x + 1))); print(f((1), (2), f(3))); A a = new A(); print(a.v); a = new A(f(6)); print(a.v); print(f(x = 4) + x); print(int 2.5f);"),
     "0 4 12 321 12 123 5 6 8 2")
for _name, _text in (("a value after a variable", "int y = x 5;"), ("a name after a variable", "int y = x x;"), ("arguments separated by a semicolon", "print(f(1 ; 2));"), ("an argument after another", "print(f((1) 2));"),
                     ("words between arguments", "print(f(1 ; 2, 3));"), ("new without parentheses", "A a = new A; print(f(7));"), ("a bracket between arguments", "print(f(1 ], 2));")):
    prog("C23", _name + " is refused", CALLED.replace("$", _text), "", 255)

constprog("var with ref of a const object", "var r ref = b; r.v = 3;")
constprog("var with ref of another object", "var r ref = n; r.v = 3; print(n.v);", ok="3")
constprog("a const object for a later reference parameter", "later(1, b);", fn="}\nprivate void later(int x, B o ref) modify { o.v = x; ")
constprog("an object for a later reference parameter", "later(4, n); print(n.v);", fn="}\nprivate void later(int x, B o ref) modify { o.v = x; ", ok="4")
for _op in ("k++;", "k--;", "k = 2;", "k += 1;"):
    constprog("a const local of a constructor with " + _op, "D d = new D(); print(d.x);", member="}\npublic object D {\n\tpublic int x;\n\tpublic void Constructor() { int k const = 3; %s x = k; }\n" % _op)
constprog("a const object within a const object", "D d const = new D(); d.o.v = 4;", member="}\npublic object D {\n\tpublic B o;\n\tpublic void Constructor() { o = new B(); }\n")
constprog("a const object three parts deep", "D d const = new D(); d.e.o.v = 4;", member="}\npublic object E {\n\tpublic B o;\n\tpublic void Constructor() { o = new B(); }\n}\npublic object D {\n\tpublic E e;\n\tpublic void Constructor() { e = new E(); }\n")
constprog("an object three parts deep", "D d = new D(); d.e.o.v = 4; print(d.e.o.v);", member="}\npublic object E {\n\tpublic B o;\n\tpublic void Constructor() { o = new B(); }\n}\npublic object D {\n\tpublic E e;\n\tpublic void Constructor() { e = new E(); }\n", ok="4")


def lines(pid, name, calls):
    """a program printing each expression, and what it prints"""
    SCRIPTS.setdefault(pid, []).append((name, "public void Main(int argc, string args) modify throws {\n%s}\n" % "".join("\tprint(%s);\n" % c for c, e in calls), "".join(e + "\n" for c, e in calls), 0))


def numbers():
    import math
    g = lambda v: ("%f" % v).rstrip("0").rstrip(".")
    f32 = lambda v: __import__("struct").unpack("f", __import__("struct").pack("f", v))[0]
    fn = {n: getattr(math, n) for n in "acos asin asinh atan atanh cos cosh erf erfc exp expm1 fabs lgamma log log10 log1p log2 sin sinh sqrt tan tanh".split()}
    fn.update(tgamma=math.gamma, cbrt=lambda x: x ** (1 / 3), exp2=lambda x: 2 ** x, ceil=lambda x: float(math.ceil(x)), floor=lambda x: float(math.floor(x)), trunc=lambda x: float(math.trunc(x)),
              rint=lambda x: float(round(x)), nearbyint=lambda x: float(round(x)), round=lambda x: math.copysign(math.floor(abs(x) + 0.5), x), logb=lambda x: float(math.frexp(x)[1] - 1), ilogb=lambda x: float(math.frexp(x)[1] - 1))
    for n, f in sorted(fn.items()):
        calls = []
        for x in (0.75, 0.25, 0.5):
            calls.append(("string %s(%sd)" % (n, x), g(f(x))))
            calls.append(("string %s(%sf)" % (n if n == "round" else n + "f", x), g(f32(f(x)))))
        if n in ("ceil", "floor", "trunc", "rint", "nearbyint", "round", "fabs"):
            for x in (2.5, 3.5, 1.25, 1.75):
                for s, y in (("", x), ("0.0d - ", -x)):
                    calls.append(("string %s(%s%sd)" % (n, s, x), g(f(y))))
            for x in (2.5, 1.25, 1.75):
                for s, y in (("", x), ("0.0f - ", -x)):
                    calls.append(("string %s(%s%sf)" % (n if n == "round" else n + "f", s, x), g(f(y))))
            calls.append(("string %s(16777217.5d)" % n, g(f(16777217.5))))
        lines("C25", n, calls)
    lines("C25", "acosh", [("string acosh(%sd)" % x, g(math.acosh(x))) for x in (1.5, 3.0)] + [("string acoshf(%sf)" % x, g(math.acosh(x))) for x in (1.5, 3.0)])
    two = dict(atan2=math.atan2, copysign=math.copysign, fdim=lambda x, y: max(x - y, 0.0), fmax=max, fmin=min, fmod=math.fmod, hypot=math.hypot, pow=math.pow, remainder=math.remainder)
    for n, f in sorted(two.items()):
        calls = []
        for x, y in ((3.0, 2.0), (2.0, 3.0), (0.5, 4.0), (5.5, 1.5)):
            calls.append(("string %s(%sd, %sd)" % (n, x, y), g(f(x, y))))
            calls.append(("string %sf(%sf, %sf)" % (n, x, y), g(f32(f(x, y)))))
        calls.append(("string %s(0.0d - 3.0d, 2.0d)" % n, g(f(-3.0, 2.0))))
        calls.append(("string %s(3.0d, 0.0d - 2.0d)" % n, g(f(3.0, -2.0))))
        lines("C25", n, calls)
    lines("C25", "more numbers", [("string fma(2.0d, 3.0d, 4.0d)", "10"), ("string fmaf(2.0f, 3.0f, 4.0f)", "10"), ("string fma(4.0d, 0.5d, 3.0d)", "5"), ("string fmaf(4.0f, 0.5f, 3.0f)", "5"),
                                  ("string ldexp(3.0d, 4.0d)", "48"), ("string ldexpf(3.0f, 4.0f)", "48"), ("string scalbn(3.0d, 2.0d)", "12"), ("string scalbnf(3.0f, 2.0f)", "12"),
                                  ("string abs(0 - 5)", "5"), ("string abs(5)", "5"), ("string abs(0 - 2147483647)", "2147483647"), ("string abs(0)", "0"),
                                  ("nextafter(1.0d, 2.0d) > 1.0d", "1"), ("nextafter(1.0d, 0.0d) < 1.0d", "1"), ("nexttoward(1.0d, 2.0d) > 1.0d", "1"), ("nexttoward(1.0d, 0.0d) < 1.0d", "1"),
                                  ("nextafterf(1.0f, 2.0f) > 1.0f", "1"), ("nextafterf(1.0f, 0.0f) < 1.0f", "1"), ("nexttowardf(1.0f, 2.0f) > 1.0f", "1"), ("nexttowardf(1.0f, 0.0f) < 1.0f", "1"),
                                  ("typeid( sqrt(4.0f) )", "float"), ("typeid( sqrt(4.0d) )", "double"), ("typeid( tgammaf(4.0f) )", "float"), ("typeid( round(4.5f) )", "float"), ("typeid( round(4.5d) )", "double")])
    prog("C25", "large whole numbers", """
public void Main(int argc, string args) modify throws {
	int64 b = 3; int64 e = 30; int64 m = 0; m = m - 5000000000;
	print( string powl(b, e) );
	print( string powl(e, b) );
	e = 39;
	print( string powl(b, e) );
	print( string labs(m) );
	print( string labs(b) );
}
""", "205891132094649 27000 4052555153018976267 5000000000 3")


numbers()


def refuses(pid, name, expr):
    prog(pid, name, "public void Main(int argc, string args) modify throws {\n\ttry { string s = string %s; print(\"got\"); print(s); }\n\tcatch { print(\"refused\"); }\n}\n" % expr, "refused")


def words():
    q = lambda s: '"%s"' % s
    sub, pos, find, pads, trims, cases, cats = [], [], [], [], [], [], []
    for t in ("", "a", "abcdef", "ab cd"):
        for k in range(len(t) + 1):
            sub.append(("substr(%s, %d)" % (q(t), k), t[k:]))
            pos.append(("strpos(%s, %d)" % (q(t), k), t[k:k + 1]))
            for m in (0, 1, 2, 5, 9):
                sub.append(("substr(%s, %d, %d)" % (q(t), k, m), t[k:k + m]))
            sub.append(("substr(%s, %d, 0 - 1)" % (q(t), k), t[k:]))
        refuses("C26", "a part behind the end of '%s'" % t, "substr(%s, %d)" % (q(t), len(t) + 1))
        refuses("C26", "a part with a length behind the end of '%s'" % t, "substr(%s, %d, 1)" % (q(t), len(t) + 1))
        refuses("C26", "a part before the start of '%s'" % t, "substr(%s, 0 - 1, 2)" % q(t))
        refuses("C26", "a character behind the end of '%s'" % t, "strpos(%s, %d)" % (q(t), len(t) + 1))
        refuses("C26", "a character before the start of '%s'" % t, "strpos(%s, 0 - 1)" % q(t))
        refuses("C26", "padding '%s' with nothing" % t, "strlpad(%s, 9, \"\")" % q(t))
        refuses("C26", "padding '%s' with two characters" % t, "strlpad(%s, 9, \"xy\")" % q(t))
        refuses("C26", "padding '%s' with nothing at the end" % t, "strrpad(%s, 9, \"\")" % q(t))
        refuses("C26", "padding '%s' with two characters at the end" % t, "strrpad(%s, 2, \"xy\")" % q(t))
        for k in (0, 1, 2, 6, 7, 12):
            pads.append(("strlpad(%s, %d, \"-\")" % (q(t), k), t.rjust(k, "-")))
            pads.append(("strrpad(%s, %d, \"-\")" % (q(t), k), t.ljust(k, "-")))
    for t in ("", "a", "abcabc", "aaa", "xabcabcd"):
        for w in ("", "a", "b", "bc", "aa", "cd", "abcabcdx"):
            if w:
                find.append(("string strfind(%s, %s)" % (q(t), q(w)), str(t.find(w))))
                for k in range(len(t) + 2):
                    find.append(("string strfind(%s, %s, %d)" % (q(t), q(w), k), str(t.find(w, k))))
                find.append(("string strfind(%s, %s, 0 - 1)" % (q(t), q(w)), "-1"))
    for t in ("", " ", "   ", "ab", " ab", "ab ", "  a b  ", "x    y "):
        trims += [("strltrim(%s) + \"|\"" % q(t), t.lstrip(" ") + "|"), ("strrtrim(%s) + \"|\"" % q(t), t.rstrip(" ") + "|"), ("strtrim(%s) + \"|\"" % q(t), t.strip(" ") + "|"),
                  ("string strlen(%s)" % q(t), str(len(t)))]
    for t in ("", "abcXYZ", "aAzZ@[`{09", "Mixed Text 12"):
        cases += [("toLower(%s)" % q(t), t.lower()), ("toUpper(%s)" % q(t), t.upper())]
    for t in ("", "ab", "abc def"):
        for u in ("", "x", "uvw xyz"):
            cats.append(("strcat(%s, %s)" % (q(t), q(u)), t + u))
            for k in (0, 1, 3, 7, 9):
                cats.append(("strncat(%s, %s, %d)" % (q(t), q(u), k), t + u[:k]))
    comp = []
    for t, u in (("a", "b"), ("b", "a"), ("ab", "ab"), ("abc", "abd"), ("aab", "ab"), ("", "a"), ("abcx", "abcy")):
        for n in ("strcmp", "strcoll"):
            comp.append(("(%s(%s, %s) < 0)" % (n, q(t), q(u)), str(int(t < u))))
            comp.append(("(%s(%s, %s) > 0)" % (n, q(t), q(u)), str(int(t > u))))
        for k in (0, 1, 2, 3, 4):
            comp.append(("(strncmp(%s, %s, %d) < 0)" % (q(t), q(u), k), str(int(t[:k] < u[:k]))))
            comp.append(("(strncmp(%s, %s, %d) > 0)" % (q(t), q(u), k), str(int(t[:k] > u[:k]))))
        comp.append(("string strspn(%s, %s)" % (q(t), q(u)), str(next((i for i, c in enumerate(t) if c not in u), len(t)))))
        comp.append(("string strcspn(%s, %s)" % (q(t), q(u)), str(next((i for i, c in enumerate(t) if c in u), len(t)))))
    for n, l in (("comparing", comp), ("parts", sub), ("characters", pos), ("positions", find), ("padding", pads), ("trimming", trims), ("case", cases), ("joining", cats)):
        lines("C26", n, l)


words()


def operations():
    """accepted operations and their types, as a variable declared with `var` shows them; and refused ones"""
    vals = (("bool", "b", "true"), ("double", "d", "2.5d"), ("float", "f", "1.5f"), ("int16", "h", "3"), ("int", "i", "5"), ("int64", "l", "7"), ("string", "s", "\"x\""))
    decl = "".join("\t%s %s = %s;\n" % (t, n, v) for t, n, v in vals)
    ints, num = ("int16", "int", "int64"), ("double", "float", "int16", "int", "int64")
    join = lambda l, r: l if l in num[:2] or r in ints and l != "int16" else r

    def typ(l, o, r):
        if o == "=":
            return l if l in ("bool", "string") or (r != "string" if l != "int16" else r in ints) else None
        if o in ("==", "<", "<=", ">", ">="):
            return "bool" if l == r and (l != "bool" or o == "==") or l in num and r in num and l != "int16" else None
        if o in ("&", "|"):
            return l if l == r and l in ints else None
        if l == "string":
            return "string" if o in ("+", "<<") else None
        if o in ("<<", ">>") or l not in num or r not in num:
            return None
        return join(l, r) if o != "%" or l in ints and r in ints else None
    wrap = lambda t: "public void Main(int argc, string args) modify throws {\n%s%s\tprint(\"end\");\n}\n" % (decl, t)
    for o in ("=", "+", "-", "*", "/", "%", "&", "|", "<<", ">>", "==", "<", "<=", ">", ">="):
        types, seen = [], []
        for l, a, _ in vals:
            for r, b, _ in vals:
                t = typ(l, o, r)
                e = "(%s %s %s)" % (a, o, b)
                if t is None:
                    prog("C15", "%s %s %s is refused" % (l, o, r), wrap("\tif ( b == false ) { var x = %s; }\n" % e), "", 255)
                    continue
                if o in ("&", "|") or o == "=" and r == "string":        # may fail when run
                    types.append("\tif ( b == false ) { var x = %s; }\n" % e)
                    continue
                types.append("\t{ var x = %s; print(typeid(x)); }\n" % e)
                seen.append(t)
        prog("C15", "types of " + o, wrap("".join(types)), " ".join(seen + ["end"]))
        if o in ("+", "-", "*", "/", "%"):
            for l, a, _ in vals:
                for r, b, _ in vals:
                    t = typ(l, o, r)
                    ok = t is not None and typ(l, "=", t) is not None
                    prog("C15", "%s %s= %s" % (l, o, r) + ("" if ok else " is refused"), wrap("\tif ( b == false ) { %s %s= %s; }\n" % (a, o, b)), "end" if ok else "", 0 if ok else 255)
    casts = ""
    for l, a, _ in vals:
        for r, b, _ in vals:
            casts += "\tif ( b == false ) { var x = cast<%s>(%s); }\n" % (l, b)
            ok = typ(l, "=", r) is not None
            prog("C15", "%s declared with %s" % (l, r) + ("" if ok else " is refused"), wrap("\tif ( b == false ) { %s x = %s; }\n" % (l, b)), "end" if ok else "", 0 if ok else 255)
    prog("C15", "casts", wrap(casts), "end")
    for l, a, _ in vals:
        for o in "+-":
            ok = l in num
            prog("C15", "%s%s" % (o, l) + ("" if ok else " is refused"), wrap("\tif ( b == false ) { var x = %s%s; }\n" % (o, a)), "end" if ok else "", 0 if ok else 255)
    every = [o for o in ("=", "&", "|", "<", "<=", ">", ">=", "+", "/", "%", "*", "-", "<<", ">>")]
    for o in every:
        body = "public object A { public int v; public %s operator%s(int n) const { %s } }\npublic void Main(int argc, string args) modify throws {\n\tA a = new A();\n\tint n = 1;\n\tif ( n == 2 ) { @ }\n\tprint(\"end\");\n}\n" % (
            ("bool", o, "return true;") if o in ("<", "<=", ">", ">=") else ("A", o, "return this;"))
        for u in every:
            if u != "=":
                prog("C15", "object with %s: %s" % (o, u) + ("" if u == o else " is refused"), body.replace("@", "var x = (a %s n);" % u), "end" if u == o else "", 0 if u == o else 255)
    obj = """
public object A { public int v; public A operator+(int n) const { return this; } public A operator*(A other) const { return this; } public bool operator==(string s) const { return true; } public int =operator(int none) const { return v; } }
public object B extends A { }
public enum E { one, two; }
public void Main(int argc, string args) modify throws {
	A a = new A();
	B b = new B();
	Object o = a;
	E e = E.one;
	int n = 1;
	string s = "x";
	if ( n == 2 ) { %s }
	print("end");
}
"""
    for t in ("a = a;", "b = b;", "A x = b;", "var x = a + n;", "var x = a * a;", "var x = (a == s);", "var x = (a == a);", "var x = (a == o);", "var x = (o == a);", "var x = (o == o);",
              "var x = (e == e);", "var x = (e < n);", "var x = (n >= e);", "n = e;", "s = e;", "var x = e + e;", "int x = a;", "e = e;", "a += n;"):
        prog("C15", "objects: " + t, obj % t, "end")
    for t in ("b = a;", "B x = a;", "var x = a - n;", "var x = a + s;", "var x = n + a;", "var x = (a < a);", "var x = (a == n);", "var x = (s == a);", "var x = (a == e);", "e = n;", "var x = e + n;", "var x = n + e;",
              "string x = a;", "a = n;", "var x = -a;", "var x = -e;", "a -= n;", "var x = a & n;"):
        prog("C15", "objects: " + t + " is refused", obj % t, "", 255)


operations()

prog("C12", "catch for a remote ancestor", """
public object A { public void Constructor() { } }
public object B extends A { public void Constructor() { } }
public object C extends B { public void Constructor() { } }
public object D { public void Constructor() { } }
public void Main(int argc, string args) modify throws {
	try { throw new B(); }
	catch ( A e ) { print("A-B"); }
	try { throw new C(); }
	catch ( D e ) { print("D-C"); }
	catch ( A e ) { print("A-C"); }
	catch { print("other"); }
	try { throw new A(); }
	catch ( C e ) { print("C-A"); }
	catch ( B e ) { print("B-A"); }
	catch { print("other"); }
}
""", "A-B A-C other")
