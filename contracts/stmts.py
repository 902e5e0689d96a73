"""What each statement and expression form has to do, as monitors over the interpreter's calls."""
import z3
from .interp import *


class NodeSpec(Spec):
    """a function of one syntax tree node"""
    cls = None

    def ptr(self, st, field):
        return self.W.ptr(st, self.W.n, self.cls, field)

    def is_(self, st, ptr, field, what):
        return self.W.need(st, "flow", self.W.peq(st, ptr, self.ptr(st, field)), "%s: %s" % (self.fn, what))


class IfSpec(NodeSpec):
    fn, cls = "if statement", "IfStatement"

    def eval_pre(self, st, name, node, res, a):
        if self.q(st) != "start":
            return self.bad(st, "the condition is evaluated once")
        return [st] if self.is_(st, node, "mCondition", "evaluates its condition") else []

    def eval_post(self, st, name, node, res, v):
        out = []
        for s, b in self.W.split(st, truth(v)):
            f = "mIfBlock" if b else "mElseBlock"
            out += self.goexec(s, f, self.ptr(s, f), lambda x: self.go(x, "done"))
        return out

    def exec_pre(self, st, name, node):
        q = self.q(st)
        if q not in ("mIfBlock", "mElseBlock"):
            return self.bad(st, "executes one branch, after the condition was evaluated")
        return [st] if self.is_(st, node, q, "executes the branch selected by the condition") else []

    def exec_post(self, st, name, node, e, rv):
        return self.go(st, "done", e)

    def done(self, st, v):
        self.W.need(st, "flow", self.q(st) in ("done", "raised"), "if statement: the selected branch is executed")


class WhileSpec(NodeSpec):
    fn, cls = "while loop", "WhileStatement"

    def eval_pre(self, st, name, node, res, a):
        if self.q(st) not in ("start",):
            return self.bad(st, "the condition is evaluated before each iteration, and not after the loop ended")
        return [st] if self.is_(st, node, "mCondition", "evaluates its condition") else []

    def eval_post(self, st, name, node, res, v):
        out = []
        for s, b in self.W.split(st, truth(v)):
            out += self.goexec(s, "body", self.ptr(s, "mStatement"), lambda x: self.go(x, "start")) if b else self.go(s, "done")
        return out

    def exec_pre(self, st, name, node):
        if self.q(st) != "body":
            return self.bad(st, "the body runs only after the condition held")
        return [st] if self.is_(st, node, "mStatement", "executes its body") else []

    def exec_post(self, st, name, node, e, rv):
        if e in ("Normal", "Continue"):
            return self.go(st, "start", "Normal")
        return self.go(st, "done", "Normal" if e == "Break" else e)

    def done(self, st, v):
        self.W.need(st, "flow", self.q(st) in ("done", "raised"), "while loop: ends only when the condition is false or control leaves the body")


class ForSpec(NodeSpec):
    fn, cls = "for loop", "ForStatement"
    FIELD = dict(init="mInitialization", cond="mCondition", body="mStatement", iter="mIteration")
    NEXT = dict(init="cond", cond="body", body="iter", iter="cond")

    def begin(self, st):
        return self.next(st, "init")

    def next(self, st, q, want=None):
        """move to part q; absent parts are passed over up to the check of the condition"""
        if want is not None:
            self.go(st, q, want)
        if q == "cond":
            return self.go(st, q)
        out = []
        for s, null in self.W.split(st, self.W.peq(st, self.ptr(st, self.FIELD[q]), NULL)):
            out += self.next(s, self.NEXT[q]) if null else self.go(s, q)
        return out

    def pending(self, st, what):
        """states in which a part comes next (an absent condition is passed over)"""
        q = self.q(st)
        if q not in self.FIELD:
            return self.bad(st, what)
        if q != "cond":
            return [st]
        out = []
        for s, null in self.W.split(st, self.W.peq(st, self.ptr(st, "mCondition"), NULL)):
            if not null:
                out.append(s)
            else:
                for s2 in self.next(s, "body"):
                    if self.q(s2) == "cond":
                        self.bad(s2, what)
                    else:
                        out.append(s2)
        return out

    def eval_pre(self, st, name, node, res, a):
        out = []
        for s in self.pending(st, "the condition is not evaluated after the loop ended"):
            if self.q(s) != "cond":
                self.bad(s, "the condition is evaluated after the initialisation and before each iteration")
            elif self.is_(s, node, "mCondition", "evaluates its condition"):
                out.append(s)
        return out

    def eval_post(self, st, name, node, res, v):
        out = []
        for s, b in self.W.split(st, truth(v)):
            out += self.next(s, "body") if b else self.go(s, "done")
        return out

    def exec_pre(self, st, name, node):
        if not self.W.need(st, "scope", self.W.depth(st) > self.W.scopes0.n, "for loop: its variable lives in a scope of its own"):
            return []
        out = []
        for s in self.pending(st, "nothing is executed after the loop ended"):
            if self.q(s) == "cond":
                self.bad(s, "the condition is checked before each iteration")
            elif self.is_(s, node, self.FIELD[self.q(s)], "runs initialisation, body and increment in this order"):
                out.append(s)
        return out

    def exec_post(self, st, name, node, e, rv):
        q = self.q(st)
        if q == "body" and e == "Continue" or e == "Normal":
            return self.next(st, self.NEXT[q], "Normal")
        if q == "body" and e == "Break":
            return self.go(st, "done", "Normal")
        return self.go(st, "done", e)

    def done(self, st, v):
        self.W.need(st, "flow", self.q(st) in ("done", "raised"), "for loop: ends only when the condition is false or control leaves the body")


class ListSpec(NodeSpec):
    """process: the statements of a block in order"""
    fn, cls = "statement list", "Statements"

    def begin(self, st):
        st.ghost["k"] = z3.IntVal(0)
        return [st]

    def nodes(self, st):
        return self.W.E.container(st, Ptr(self.W.n, self.W.off(self.cls, "mNodes")), "list", LInfo(8))

    def nth(self, st, k):
        c = self.nodes(st)
        return self.W.E.ptr_from(st, z3.simplify(z3.Select(self.W.E.field_arr(c, 0, IntS), c.lo + k)))

    def step(self, st, node):
        c = self.nodes(st)
        k = st.ghost["k"]
        if not self.W.need(st, "flow", k < c.n, "statement list: only its own statements are executed"):
            return []
        return [st] if self.W.need(st, "flow", self.W.peq(st, node, self.nth(st, k)), "statement list: the statements run in source order, each once") else []

    def exec_pre(self, st, name, node):
        return self.step(st, node)

    def exec_null(self, st, name, node):
        for s in self.step(st, node):
            s.ghost["k"] = z3.simplify(s.ghost["k"] + 1)
            return [s]
        return []

    def exec_post(self, st, name, node, e, rv):
        st.ghost["k"] = z3.simplify(st.ghost["k"] + 1)
        return self.go(st, "start", e)

    def done(self, st, v):
        self.W.need(st, "flow", z3.Or(st.ghost["k"] == self.nodes(st).n, z3.Not(self.W.isflow(st, "Normal"))),
                    "statement list: every statement runs unless control left the block")


class LInfo:
    def __init__(self, esize):
        self.esize, self.lv = esize, None


class BlockSpec(NodeSpec):
    """visitStatements"""
    fn, cls = "block", "Statements"

    def exec_pre(self, st, name, node):
        if self.q(st) != "start":
            return self.bad(st, "the statements of a block run once")
        W = self.W
        if not W.need(st, "scope", W.depth(st) == W.scopes0.n + 1, "block: runs in a scope of its own"):
            return []
        return [st] if W.need(st, "flow", W.peq(st, node, Ptr(W.n, 0)), "block: runs its own statements") else []

    def exec_post(self, st, name, node, e, rv):
        return self.go(st, "done", e)

    def done(self, st, v):
        self.W.need(st, "flow", self.q(st) == "done", "block: its statements are executed")


class TernarySpec(NodeSpec):
    fn, cls, is_eval = "ternary expression", "TernaryExpression", True

    def begin(self, st):
        st.ghost["v"] = v_none
        return [st]

    def eval_pre(self, st, name, node, res, a):
        q = self.q(st)
        f = dict(start="mCondition", first="mFirst", second="mSecond").get(q)
        if f is None:
            return self.bad(st, "evaluates the condition and the selected operand only")
        return [st] if self.is_(st, node, f, "evaluates the condition and then the operand it selects") else []

    def eval_post(self, st, name, node, res, v):
        if self.q(st) == "start":
            st.ghost["v"] = v
            out = []
            for s, b in self.W.split(st, truth(v)):
                if b:
                    for s2, same in self.W.split(s, self.W.peq(s, self.ptr(s, "mCondition"), self.ptr(s, "mFirst"))):
                        out += self.go(s2, "done" if same else "first")
                else:
                    out += self.go(s, "second")
            return out
        st.ghost["v"] = v
        return self.go(st, "done")

    def on_assign(self, st, dst, src, v):
        return [st]

    def done(self, st, v):
        if self.W.need(st, "flow", self.q(st) == "done", "ternary expression: the selected operand is evaluated"):
            self.W.need(st, "value", self.W.val(st, Ptr(self.W.res, 0)) == st.ghost["v"], "ternary expression: its value is the selected operand's")


class SwitchSpec(NodeSpec):
    """states: start (evaluate the value, or run the default block when there is no case), case (case k is next),
    cmp (case k evaluated), match (run its block), done"""
    fn, cls = "switch statement", "SwitchStatement"

    def begin(self, st):
        st.ghost["k"] = z3.IntVal(0)
        st.ghost["v"] = v_none
        st.ghost["w"] = v_none
        elems_nonnull(self.W, st, self.cases(st))
        return [st]

    def cases(self, st):
        return self.W.E.container(st, Ptr(self.W.n, self.W.off(self.cls, "mCaseStatements")), "list", LInfo(8))

    def part(self, st, field):
        E = self.W.E
        c = self.cases(st)
        p = E.ptr_from(st, z3.simplify(z3.Select(E.field_arr(c, 0, IntS), c.lo + st.ghost["k"])))
        return E.load(st, E.padd(p, self.W.off("CaseStatement", field)), ir.PTR)

    def eval_pre(self, st, name, node, res, a):
        q = self.q(st)
        if q == "start":
            return [st] if self.is_(st, node, "mExpression", "evaluates its value first") else []
        if q == "case":
            if not self.W.need(st, "flow", st.ghost["k"] < self.cases(st).n, "switch statement: evaluates only its own cases"):
                return []
            ok = self.W.need(st, "flow", self.W.peq(st, node, self.part(st, "mCaseExpression")), "switch statement: the cases are evaluated in source order")
            return [st] if ok else []
        return self.bad(st, "no case is evaluated after the match")

    def eval_post(self, st, name, node, res, v):
        if self.q(st) == "start":
            st.ghost["v"] = v
            st.ghost["k"] = z3.IntVal(0)
            return self.go(st, "case")
        st.ghost["w"] = v
        return self.go(st, "cmp")

    def on_cmp(self, st, k, a, vals):
        if self.q(st) != "cmp" or k != "equal":
            return self.bad(st, "each case is compared for equality after it was evaluated")
        v, w = st.ghost["v"], st.ghost["w"]
        ok = self.W.need(st, "flow", z3.And(vals[0] == v, vals[1] == w), "switch statement: compares its value with the case's value")
        return [st] if ok else []

    def cmp_post(self, st, k, b):
        if b:
            return self.go(st, "match")
        st.ghost["k"] = z3.simplify(st.ghost["k"] + 1)
        return self.go(st, "case")

    def exec_pre(self, st, name, node):
        q = self.q(st)
        if q == "match":
            ok = self.W.need(st, "flow", self.W.peq(st, node, self.part(st, "mCaseBlock")), "switch statement: runs the block of the first equal case")
            return [st] if ok else []
        if q == "start":
            if not self.W.need(st, "flow", self.cases(st).n == 0, "switch statement: evaluates its value before running a block"):
                return []
        elif q == "case":
            if not self.W.need(st, "flow", st.ghost["k"] == self.cases(st).n, "switch statement: the default block runs only if no case is equal"):
                return []
        else:
            return self.bad(st, "at most one block is executed")
        return [st] if self.is_(st, node, "mDefaultStatement", "runs the default block if no case is equal") else []

    def exec_null(self, st, name, node):
        q = self.q(st)
        out = []
        if q == "match":
            for s, null in self.W.split(st, self.W.peq(st, self.part(st, "mCaseBlock"), NULL)):
                out += self.go(s, "done" if null else q)
            return out
        return [st]

    def exec_post(self, st, name, node, e, rv):
        if e == "Continue":
            return self.go(st, "start", "Normal")
        return self.go(st, "done", "Normal" if e in ("Normal", "Break") else e)

    def done(self, st, v):
        q = self.q(st)
        if q in ("start", "case"):
            c = self.cases(st)
            none = self.W.peq(st, self.ptr(st, "mDefaultStatement"), NULL)
            self.W.need(st, "flow", z3.And(none, c.n == (0 if q == "start" else st.ghost["k"])),
                        "switch statement: every case is tried, and the default block runs if none is equal")
            return
        self.W.need(st, "flow", q in ("done", "raised"), "switch statement: the block of the equal case is executed")


def elems_nonnull(W, st, c):
    """well-formed syntax tree: lists of parts have no empty entries"""
    j = z3.Int("j!nn")
    arr = W.E.field_arr(c, 0, IntS)
    st.assume(z3.ForAll([j], z3.Select(arr, j) > 0, patterns=[z3.Select(arr, j)]))


class ForeachSpec(NodeSpec):
    """states: start (collection), get (iterator from the collection or directly), has, item (define the variable, fetch), body, done"""
    fn, cls = "foreach loop", "ForeachStatement"

    def begin(self, st):
        W = self.W
        st.ghost["v"] = v_none
        st.ghost["it"] = z3.IntVal(0)
        st.ghost["var"] = z3.IntVal(0)
        st.ghost["def"] = 0
        st.ghost["nxt"] = 0
        for f in ("mTypeDeclaration", "mGetIteratorExpression", "mHasNextExpression", "mNextExpression"):
            st.assume(z3.Not(W.peq(st, self.ptr(st, f), NULL)))
        out = []
        for s, null in W.split(st, W.peq(st, self.ptr(st, "mCollectionExpression"), NULL)):
            out += self.go(s, "direct" if null else "start")
        return out

    def has(self, st):
        st.ghost["def"] = 0
        st.ghost["nxt"] = 0
        st.ghost["var"] = z3.IntVal(0)
        return self.go(st, "has", "Normal")

    def on_iterator(self, st, what):
        W = self.W
        return W.need(st, "flow", W.topaddr(st) == st.ghost["it"], "foreach loop: %s is called on the iterator" % what)

    def eval_pre(self, st, name, node, res, a):
        W = self.W
        q = self.q(st)
        if q == "start":
            return [st] if self.is_(st, node, "mCollectionExpression", "evaluates the collection first") else []
        if q in ("get", "direct"):
            if not self.is_(st, node, "mGetIteratorExpression", "fetches the iterator once, from the collection"):
                return []
            if q == "get":
                ok = W.need(st, "flow", W.val(st, W.topobj(st)) == st.ghost["v"], "foreach loop: the iterator is fetched from the collection")
                return [st] if ok else []
            return [st]
        if q == "has":
            if not self.is_(st, node, "mHasNextExpression", "asks for a next element before each iteration"):
                return []
            return [st] if self.on_iterator(st, "hasNext") else []
        if q == "item" and st.ghost["nxt"] == 0:
            if not self.is_(st, node, "mNextExpression", "fetches one element per iteration"):
                return []
            if not self.on_iterator(st, "next"):
                return []
            st.ghost["nxt"] = 1
            return self.same_var(st, W.E.addr(st, res), "the element is stored in the loop variable")
        return self.bad(st, "evaluates nothing else")

    def same_var(self, st, x, what):
        v = st.ghost["var"]
        if z3.is_int_value(v) and v.as_long() == 0:
            st.ghost["var"] = x
            return [st]
        return [st] if self.W.need(st, "flow", x == v, "foreach loop: " + what) else []

    def eval_post(self, st, name, node, res, v):
        q = self.q(st)
        if q == "start":
            st.ghost["v"] = v
            return self.go(st, "get")
        if q in ("get", "direct"):
            st.ghost["it"] = self.W.E.addr(st, res)
            return self.has(st)
        if q == "has":
            out = []
            for s, b in self.W.split(st, truth(v)):
                out += self.go(s, "item" if b else "done")
            return out
        return [st]

    def on_define(self, st, scope, name, sym):
        W = self.W
        if self.q(st) != "item" or st.ghost["def"]:
            return self.bad(st, "defines one variable per iteration")
        E = W.E
        st.ghost["def"] = 1
        decl = self.ptr(st, "mTypeDeclaration")
        ok = W.need(st, "flow", W.strat(st, name) == W.strat(st, E.padd(decl, W.off("TypeDeclaration", "mName"))), "foreach loop: defines the loop variable")
        ok = ok and W.need(st, "scope", z3.And(W.depth(st) > W.scopes0.n, W.peq(st, scope, W.topptr(st))), "foreach loop: the variable is defined in a scope of its own")
        return self.same_var(st, W.E.addr(st, W.sym_obj(st, sym)), "the element is stored in the loop variable") if ok else []

    def exec_pre(self, st, name, node):
        if self.q(st) != "item" or not (st.ghost["def"] and st.ghost["nxt"]):
            return self.bad(st, "the body runs after the variable got the next element")
        return [st] if self.is_(st, node, "mStatement", "executes its body") else []

    def exec_null(self, st, name, node):
        if self.q(st) != "item":
            return [st]
        out = []
        for s, null in self.W.split(st, self.W.peq(st, self.ptr(st, "mStatement"), NULL)):
            out += self.has(s) if null else [s]
        return out

    def exec_post(self, st, name, node, e, rv):
        if e in ("Normal", "Continue"):
            return self.has(st)
        st.ghost["def"] = st.ghost["nxt"] = 0
        st.ghost["var"] = z3.IntVal(0)
        return self.go(st, "done", "Normal" if e == "Break" else e)

    def done(self, st, v):
        self.W.need(st, "flow", self.q(st) in ("done", "raised"), "foreach loop: ends only when there is no next element or control leaves the body")


class TrySpec(NodeSpec):
    """states: try, catch (catch block k is examined), chosen, bind, body, finally, done"""
    fn, cls = "try statement", "TryStatement"

    def begin(self, st):
        st.ghost["k"] = z3.IntVal(0)
        st.ghost["x"] = z3.IntVal(0)
        st.ghost["var"] = z3.IntVal(0)
        elems_nonnull(self.W, st, self.catches(st))
        out = []
        for s, null in self.W.split(st, self.W.peq(st, self.ptr(st, "mTryBlock"), NULL)):
            out += self.go(s, "finally" if null else "try")
        return out

    def catches(self, st):
        return self.W.E.container(st, Ptr(self.W.n, self.W.off(self.cls, "mCatchStatements")), "list", LInfo(8))

    def part(self, st, field):
        E = self.W.E
        c = self.catches(st)
        p = E.ptr_from(st, z3.simplify(z3.Select(E.field_arr(c, 0, IntS), c.lo + st.ghost["k"])))
        return E.load(st, E.padd(p, self.W.off("CatchStatement", field)), ir.PTR)

    def norm(self, st):
        """the state the next event has to fit: a catch block without type is chosen, after the last one comes finally"""
        out = []
        work = [st]
        while work:
            s = work.pop()
            q = self.q(s)
            if q == "catch":
                for s2, end in self.W.split(s, s.ghost["k"] >= self.catches(s).n):
                    if end:
                        work += self.go(s2, "finally", "Throw")
                        continue
                    for s3, untyped in self.W.split(s2, self.W.peq(s2, self.part(s2, "mTypeDeclaration"), NULL)):
                        out += self.go(s3, "body" if untyped else "catch")
            elif q == "finally":
                for s2, null in self.W.split(s, self.W.peq(s, self.ptr(s, "mFinallyBlock"), NULL)):
                    out += self.go(s2, "done" if null else "finally")
            else:
                out.append(s)
        return out

    def on_isinst(self, st, p, name, c):
        out = []
        for s in self.norm(st):
            if self.q(s) != "catch":
                self.bad(s, "the catch blocks are tried in source order until one fits")
                continue
            W = self.W
            decl = self.part(s, "mTypeDeclaration")
            ok = W.need(s, "flow", W.E.addr(s, p) == s.ghost["x"], "try statement: the type of the thrown object decides")
            ok = ok and W.need(s, "flow", name == W.strat(s, W.E.padd(decl, W.off("TypeDeclaration", "mType"))),
                               "try statement: the thrown object is checked against the declared type of each catch block")
            if not ok:
                continue
            for s2, b in W.split(s, c):
                if b:
                    out += [(x, b) for x in self.go(s2, "chosen")]
                else:
                    s2.ghost["k"] = z3.simplify(s2.ghost["k"] + 1)
                    out += [(x, b) for x in self.go(s2, "catch")]
        return out

    FLOWS = ("Normal",)

    def exec_flows(self, name):
        return ("Normal",) if name.startswith("visitType") else None

    def exec_pre(self, st, name, node):
        W = self.W
        out = []
        for s in self.norm(st):
            q = self.q(s)
            if name.startswith("visitType"):
                ok = W.need(s, "flow", q == "chosen", "try statement: the variable of the chosen catch block is declared")
                ok = ok and W.need(s, "flow", W.peq(s, node, self.part(s, "mTypeDeclaration")), "try statement: the variable of the chosen catch block is declared")
                ok = ok and W.need(s, "scope", W.depth(s) > W.scopes0.n, "try statement: the caught exception lives in a scope of its own")
            elif q == "try":
                ok = self.is_(s, node, "mTryBlock", "runs the try block first")
            elif q == "body":
                ok = W.need(s, "flow", W.peq(s, node, self.part(s, "mStatements")), "try statement: runs the block of the first catch that fits")
            elif q == "finally":
                ok = self.is_(s, node, "mFinallyBlock", "runs the finally block")
            else:
                ok = False
                self.bad(s, "runs the try block, one fitting catch block and the finally block")
            if ok:
                out.append(s)
        return out

    def exec_null(self, st, name, node):
        out = []
        for s in self.norm(st):
            if self.q(s) == "body":
                for s2, null in self.W.split(s, self.W.peq(s, self.part(s, "mStatements"), NULL)):
                    out += self.go(s2, "finally", "Normal") if null else [s2]
            else:
                out.append(s)
        return out

    def exec_post(self, st, name, node, e, rv):
        W = self.W
        q = self.q(st)
        if q == "chosen":
            st.ghost["var"] = W.E.addr(st, rv)
            return self.go(st, "bind")
        if q == "try":
            if e != "Throw":
                return self.go(st, "finally", e)
            st.ghost["x"] = W.excaddr(st)
            out = []
            for s, none in W.split(st, self.catches(st).n == 0):
                if none:
                    out += self.go(s, "finally", "Normal")
                else:
                    s.ghost["k"] = z3.IntVal(0)
                    out += self.go(s, "catch", "Throw")
            return out
        if q == "body":
            return self.go(st, "finally", e)
        return self.go(st, "done", e if e != "Normal" else None)

    def on_assign(self, st, dst, src, v):
        W = self.W
        if self.q(st) != "bind":
            return Spec.on_assign(self, st, dst, src, v)
        ok = W.need(st, "flow", W.E.addr(st, dst) == st.ghost["var"], "try statement: the caught object is assigned to the declared variable")
        ok = ok and W.need(st, "flow", W.E.addr(st, src) == st.ghost["x"], "try statement: the declared variable gets the thrown object")
        return self.go(st, "body") if ok else []

    def done(self, st, v):
        pass

    def exit_ret(self, st, v):
        for s in self.norm(st):
            self.W.need(s, "flow", self.q(s) == "done", "try statement: the chosen catch block and the finally block are executed")
            self.W.need(s, "flow", self.W.flowint(s) == s.ghost["want"],
                        "try statement: control flow afterwards is that of the finally block, else of the catch block, else of the try block")


class OneEval(NodeSpec):
    """statements around one evaluated expression: eval, then `after`"""
    field = "mExpression"
    optional = False
    flow = "Normal"

    def begin(self, st):
        st.ghost["v"] = v_none
        return [st]

    def eval_pre(self, st, name, node, res, a):
        if self.q(st) != "start":
            return self.bad(st, "its expression is evaluated once")
        return [st] if self.is_(st, node, self.field, "evaluates its expression") else []

    def eval_post(self, st, name, node, res, v):
        st.ghost["v"] = v
        return self.go(st, "evaluated", self.flow)

    def done(self, st, v):
        q = self.q(st)
        if q == "raised":
            return
        if q == "start" and self.optional:
            if self.W.need(st, "flow", self.W.peq(st, self.ptr(st, self.field), NULL), "%s: its expression is evaluated" % self.fn):
                self.go(st, "start", self.flow)
            return
        if self.W.need(st, "flow", q != "start", "%s: its expression is evaluated" % self.fn):
            self.finish(st)

    def finish(self, st):
        pass


class ReturnSpec(OneEval):
    fn, cls, optional, flow = "return statement", "ReturnStatement", True, "Return"

    def on_assign(self, st, dst, src, v):
        W = self.W
        if W.local(st, dst):
            return [st]
        if self.q(st) != "evaluated":
            return self.bad(st, "the result is set once, after the evaluation")
        ok = W.need(st, "flow", W.peq(st, dst, Ptr(W.frame, W.o_retval)), "return statement: the value becomes the method's result")
        ok = ok and W.need(st, "value", v == st.ghost["v"], "return statement: the value becomes the method's result")
        return self.go(st, "set") if ok else []

    def finish(self, st):
        self.W.need(st, "value", self.q(st) == "set", "return statement: the value becomes the method's result")


class ThrowSpec(OneEval):
    fn, cls, optional, flow = "throw statement", "ThrowStatement", True, "Throw"
    kind = "the thrown object"

    def on_setexc(self, st, p):
        W = self.W
        if self.q(st) != "evaluated":
            return self.bad(st, "records %s after it was evaluated" % self.kind)
        return self.go(st, "set") if W.need(st, "value", W.val(st, p) == st.ghost["v"], "%s: records %s" % (self.fn, self.kind)) else []

    def finish(self, st):
        self.W.need(st, "value", self.q(st) == "set", "%s: records %s" % (self.fn, self.kind))
        if self.flow == "Throw":
            self.told(st, "notifyExceptionThrow")


class ExitSpec(ThrowSpec):
    fn, cls, optional, flow = "exit statement", "ExitStatement", False, "ExitProgram"
    kind = "the exit code"


class PrintSpec(OneEval):
    fn, cls = "print statement", "PrintStatement"

    def on_print(self, st, t):
        if self.q(st) != "evaluated":
            return self.bad(st, "prints once, after the evaluation")
        return self.go(st, "printed") if self.W.need(st, "value", t == f_text(st.ghost["v"]), "print statement: prints the text of the value") else []

    def finish(self, st):
        self.W.need(st, "flow", self.q(st) == "printed", "print statement: prints")


class ExpressionSpec(OneEval):
    fn, cls = "expression statement", "Expression"

    def is_(self, st, ptr, field, what):
        return self.W.need(st, "flow", self.W.peq(st, ptr, Ptr(self.W.n, 0)), "%s: %s" % (self.fn, what))


class DeleteSpec(OneEval):
    fn, cls = "delete statement", "DeleteStatement"


class AssertSpec(NodeSpec):
    fn, cls = "assert statement", "AssertStatement"

    def begin(self, st):
        st.ghost["v"] = v_none
        return [st]

    def eval_pre(self, st, name, node, res, a):
        f = dict(start="mExpression", failed="mMessage").get(self.q(st))
        if f is None:
            return self.bad(st, "evaluates its condition, and its message if it does not hold")
        return [st] if self.is_(st, node, f, "evaluates its condition, and its message if it does not hold") else []

    def eval_post(self, st, name, node, res, v):
        if self.q(st) == "failed":
            st.ghost["v"] = v
            return self.go(st, "message")
        out = []
        for s, b in self.W.split(st, truth(v)):
            out += self.go(s, "done" if b else "failed")
        return out

    def on_print(self, st, t):
        if self.q(st) != "message":
            return self.bad(st, "prints its message only if the condition does not hold")
        return self.go(st, "printed") if self.W.need(st, "value", t == f_text(st.ghost["v"]), "assert statement: prints its message") else []

    def done(self, st, v):
        self.W.need(st, "flow", self.q(st) in ("done", "raised"), "assert statement: execution continues only if the condition holds")

    def may_fail(self, st, ti):
        q = self.q(st)
        if q == "failed":
            return self.W.peq(st, self.ptr(st, "mMessage"), NULL)
        return q == "printed"


class JumpSpec(NodeSpec):
    def begin(self, st):
        return self.go(st, "start", self.flow)


class BreakSpec(JumpSpec):
    fn, cls, flow = "break statement", "BreakStatement", "Break"


class ContinueSpec(JumpSpec):
    fn, cls, flow = "continue statement", "ContinueStatement", "Continue"


class DeclSpec(NodeSpec):
    """a variable declaration: create, define, evaluate the initialiser, assign"""
    fn, cls = "variable declaration", "TypeDeclaration"

    def begin(self, st):
        st.ghost["v"] = v_none
        st.ghost["obj"] = z3.IntVal(0)
        return [st]

    def text(self, st, field):
        return self.W.strat(st, Ptr(self.W.n, self.W.off(self.cls, field)))

    def on_create(self, st, p, a):
        W = self.W
        if self.q(st) != "start":
            return self.bad(st, "creates one object")
        st.ghost["obj"] = W.E.addr(st, p)
        ok = W.need(st, "flow", W.strat(st, a[1]) == self.text(st, "mType"), "variable declaration: creates an object of the declared type")
        ok = ok and W.need(st, "flow", W.strat(st, a[2]) == self.text(st, "mName"), "variable declaration: the object carries the declared name")
        return self.go(st, "created") if ok else []

    def on_define(self, st, scope, name, sym):
        W = self.W
        if self.q(st) != "created":
            return self.bad(st, "the variable is defined once")
        ok = W.need(st, "scope", W.peq(st, scope, W.topptr(st)), "variable declaration: defines the variable in the innermost scope")
        ok = ok and W.need(st, "flow", W.strat(st, name) == self.text(st, "mName"), "variable declaration: defines the variable under its name")
        ok = ok and W.need(st, "flow", W.E.addr(st, W.sym_obj(st, sym)) == st.ghost["obj"], "variable declaration: defines the created object")
        return self.go(st, "defined") if ok else []

    def eval_pre(self, st, name, node, res, a):
        if self.q(st) != "defined":
            return self.bad(st, "the initialiser is evaluated once, after the variable was defined")
        return [st] if self.is_(st, node, "mAssignmentExpression", "evaluates the initialiser") else []

    def eval_post(self, st, name, node, res, v):
        st.ghost["v"] = v
        return self.go(st, "evaluated")

    def on_assign(self, st, dst, src, v):
        W = self.W
        if self.q(st) != "evaluated":
            return Spec.on_assign(self, st, dst, src, v)
        ok = W.need(st, "flow", W.E.addr(st, dst) == st.ghost["obj"], "variable declaration: the initial value is assigned to the variable")
        ok = ok and W.need(st, "value", v == st.ghost["v"], "variable declaration: assigns the initialiser's value")
        return self.go(st, "done") if ok else []

    def done(self, st, v):
        W = self.W
        q = self.q(st)
        if q == "raised":
            return
        none = W.peq(st, self.ptr(st, "mAssignmentExpression"), NULL)
        ok = W.need(st, "flow", z3.Or(z3.BoolVal(q == "done"), z3.And(z3.BoolVal(q == "defined"), none)), "variable declaration: defines and initialises the variable")
        if ok:
            W.need(st, "flow", W.E.addr(st, v) == st.ghost["obj"], "variable declaration: returns the variable")


class AssignSpec(NodeSpec):
    fn, cls = "assignment", "AssignmentStatement"
    lhs, rhs = "mLeftExpression", "mRightExpression"

    def begin(self, st):
        st.ghost["v"] = v_none
        st.ghost["lv"] = z3.IntVal(0)
        st.ghost["asg"] = 0
        return [st]

    def on_lvalue(self, st, p, sym):
        W = self.W
        if not z3.is_int_value(st.ghost["lv"]):
            return self.bad(st, "the target is resolved once")
        st.ghost["lv"] = W.E.addr(st, p)
        return [st] if W.need(st, "flow", W.peq(st, sym, self.ptr(st, self.lhs)), "assignment: resolves its target") else []

    def eval_pre(self, st, name, node, res, a):
        if self.q(st) != "start":
            return self.bad(st, "the right side is evaluated once")
        return [st] if self.is_(st, node, self.rhs, "evaluates the right side") else []

    def eval_post(self, st, name, node, res, v):
        st.ghost["v"] = v
        return self.go(st, "evaluated")

    def on_assign(self, st, dst, src, v):
        W = self.W
        out = []
        for s, tgt in W.split(st, W.E.addr(st, dst) == st.ghost["lv"]):
            if not tgt:
                out += Spec.on_assign(self, s, dst, src, v)
                continue
            if self.q(s) != "evaluated":
                self.bad(s, "the target is assigned once, after the right side was evaluated")
            elif W.need(s, "value", v == s.ghost["v"], "assignment: the target gets the value of the right side"):
                s.ghost["v"] = W.converted(s, dst, v)
                out += self.go(s, "done")
        return out

    def done(self, st, v):
        self.W.need(st, "flow", self.q(st) in ("done", "raised"), "assignment: the target is assigned")
        if self.is_eval and self.q(st) == "done":
            self.W.need(st, "value", self.W.val(st, Ptr(self.W.res, 0)) == st.ghost["v"], "assignment expression: its value is the one the target has afterwards")


class AssignExprSpec(AssignSpec):
    fn, cls, is_eval = "assignment expression", "AssignmentExpression", True
    lhs, rhs = "mLHS", "mRHS"


TOKENS = dict(bitand="BITAND", bitcomplement="BITCOMPLEMENT", bitor="BITOR", plus="MATH_ADDITION", divide="MATH_DIVIDE", modulo="MATH_MODULO",
              multiply="MATH_MULTIPLY", subtract="MATH_SUBTRACT", shift_left="OPERATOR_SHIFT_LEFT", shift_right="OPERATOR_SHIFT_RIGHT")
CMPTOK = dict(equal="COMPARE_EQUAL", greater="COMPARE_GREATER", greater_equal="COMPARE_GREATER_EQUAL", less="COMPARE_LESS", less_equal="COMPARE_LESS_EQUAL")


class ExprSpec(NodeSpec):
    is_eval = True

    def token(self, st):
        W = self.W
        off = W.off(self.cls, "mOperation") + W.P.field("Slang::Token", "mType")
        return to_iv(W.E.load(st, Ptr(W.n, off), I32)).t

    def tok(self, name):
        return self.W.P.enum("Slang::Token::Type::E")[name]

    def result(self, st, v, what):
        self.W.need(st, "value", self.W.val(st, Ptr(self.W.res, 0)) == v, "%s: %s" % (self.fn, what))


class BinarySpec(ExprSpec):
    fn, cls = "binary expression", "BinaryExpression"

    def begin(self, st):
        W = self.W
        st.ghost["l"] = st.ghost["r"] = st.ghost["x"] = v_none
        t = to_iv(W.E.load(st, Ptr(W.n, W.off(self.cls, "mBinaryExpressionType")), I32)).t
        st.assume(t == W.P.enum("Slang::AST::BinaryExpression::BinaryExpressionType::E")["GenericBinaryExpression"])
        return [st]

    def eval_pre(self, st, name, node, res, a):
        f = dict(start="mLHS", right="mRHS").get(self.q(st))
        if f is None:
            return self.bad(st, "each operand is evaluated once")
        return [st] if self.is_(st, node, f, "the left operand is evaluated first, then the right one") else []

    def eval_post(self, st, name, node, res, v):
        if self.q(st) == "start":
            st.ghost["l"] = v
            return self.go(st, "right")
        st.ghost["r"] = v
        return self.go(st, "op")

    def on_op(self, st, k, a, vals):
        W = self.W
        if self.q(st) != "op" or k not in TOKENS:
            return self.bad(st, "one operator is applied, after both operands were evaluated")
        ok = W.need(st, "flow", self.token(st) == self.tok(TOKENS[k]), "binary expression: applies the operator of the source text")
        ok = ok and W.need(st, "value", z3.And(vals[0] == st.ghost["l"], vals[1] == st.ghost["r"]), "binary expression: applies the operator to its operands")
        st.ghost["x"] = op2(k, *vals)
        return self.go(st, "done") if ok else []

    def done(self, st, v):
        if self.W.need(st, "flow", self.q(st) == "done", "binary expression: the operator is applied"):
            self.result(st, st.ghost["x"], "its value is what the operator computes")

    def may_fail(self, st, ti):
        t = self.token(st)
        return z3.And(*[t != self.tok(x) for x in TOKENS.values()])


class BoolSpec(ExprSpec):
    """logical operators and comparisons: one unit per operator"""
    cls = "BooleanBinaryExpression"

    def __init__(self, token, short=None, table=None, cmp=None, neg=False):
        self.t, self.short, self.table, self.cmp, self.neg = token, short, table, cmp, neg
        self.fn = "'%s' expression" % token.lower().replace("compare_", "").replace("_", " ")

    def begin(self, st):
        W = self.W
        st.ghost["l"] = st.ghost["r"] = st.ghost["x"] = v_none
        st.assume(self.token(st) == self.tok(self.t))
        return [st]

    def eval_pre(self, st, name, node, res, a):
        f = dict(start="mLHS", right="mRHS").get(self.q(st))
        if f is None:
            return self.bad(st, "each operand is evaluated at most once, the right one only if the left one does not decide")
        return [st] if self.is_(st, node, f, "the left operand is evaluated first, then the right one") else []

    def eval_post(self, st, name, node, res, v):
        if self.q(st) == "start":
            st.ghost["l"] = v
            if self.short is None:
                return self.go(st, "right")
            out = []
            for s, b in self.W.split(st, truth(v)):
                if b == self.short:
                    s.ghost["x"] = v_bool(z3.BoolVal(self.table(b, None)))
                    out += self.go(s, "done")
                else:
                    out += self.go(s, "right")
            return out
        st.ghost["r"] = v
        if self.cmp:
            return self.go(st, "op")
        out = []
        for s, l in self.W.split(st, truth(st.ghost["l"])):
            for s2, r in self.W.split(s, truth(v)):
                s2.ghost["x"] = v_bool(z3.BoolVal(self.table(l, r)))
                out += self.go(s2, "done")
        return out

    def on_cmp(self, st, k, a, vals):
        if self.q(st) != "op" or not self.cmp:
            return self.bad(st, "one comparison is made, after both operands were evaluated")
        W = self.W
        ok = W.need(st, "flow", k == self.cmp, "%s: makes the comparison of the source text" % self.fn)
        ok = ok and W.need(st, "value", z3.And(vals[0] == st.ghost["l"], vals[1] == st.ghost["r"]), "%s: compares its operands" % self.fn)
        return [st] if ok else []

    def cmp_post(self, st, k, b):
        st.ghost["x"] = v_bool(z3.BoolVal(b != self.neg))
        return self.go(st, "done")

    def done(self, st, v):
        if self.W.need(st, "flow", self.q(st) == "done", "%s: its operands are evaluated as far as needed" % self.fn):
            self.result(st, st.ghost["x"], "its value")


class UnarySpec(ExprSpec):
    cls = "UnaryExpression"

    def __init__(self, token, op, lvalue):
        self.t, self.op, self.lvalue = token, op, lvalue
        self.fn = "unary '%s' expression%s" % (token.lower(), " on a variable" if lvalue else "")

    def begin(self, st):
        W = self.W
        st.ghost["x"] = v_none
        st.ghost["lv"] = z3.IntVal(0)
        e = W.P.enum("Slang::AST::UnaryExpression::ValueType::E")
        t = to_iv(W.E.load(st, Ptr(W.n, W.off(self.cls, "mValueType")), I32)).t
        st.assume(t == e["LValue"] if self.lvalue else t != e["LValue"])
        st.assume(self.token(st) == self.tok(self.t))
        return self.go(st, "target" if self.lvalue else "start")

    def on_lvalue(self, st, p, sym):
        W = self.W
        if self.q(st) != "target":
            return self.bad(st, "its target is resolved once")
        st.ghost["lv"] = W.E.addr(st, p)
        return self.go(st, "op") if W.need(st, "flow", W.peq(st, sym, self.ptr(st, "mExpression")), "%s: resolves its target" % self.fn) else []

    def eval_pre(self, st, name, node, res, a):
        if self.q(st) != "start":
            return self.bad(st, "its operand is evaluated once")
        return [st] if self.is_(st, node, "mExpression", "evaluates its operand") else []

    def eval_post(self, st, name, node, res, v):
        st.ghost["x"] = v
        return self.go(st, "op")

    def on_op(self, st, k, a, vals):
        W = self.W
        if self.q(st) != "op" or k != "unary_" + self.op:
            return self.bad(st, "one operator is applied, the one of the source text")
        if self.lvalue:
            if not W.need(st, "flow", W.E.addr(st, a[0]) == st.ghost["lv"], "%s: changes its target" % self.fn):
                return []
        elif not W.need(st, "value", vals[0] == st.ghost["x"], "%s: applies the operator to its operand" % self.fn):
            return []
        st.ghost["x"] = op1(self.op, vals[0])
        return self.go(st, "done")

    def done(self, st, v):
        if self.W.need(st, "flow", self.q(st) == "done", "%s: the operator is applied" % self.fn):
            self.result(st, st.ghost["x"], "its value is what the operator computes")


class MapSpec(OneEval):
    """expressions whose value is a function of one evaluated part"""
    is_eval = True

    def __init__(self, fn, cls, f):
        self.fn, self.cls, self.f = fn, cls, f

    def done(self, st, v):
        W = self.W
        if W.need(st, "flow", self.q(st) == "evaluated", "%s: its expression is evaluated" % self.fn):
            x = self.f(W, st, st.ghost["v"])
            W.need(st, "value", W.val(st, Ptr(W.res, 0)) == x, "%s: its value" % self.fn)


class LiteralSpec(ExprSpec):
    cls = "LiteralExpression"

    def __init__(self, tag, cls, kind):
        self.tag, self.cls, self.kind = tag, cls, kind
        self.fn = "%s literal" % kind.lower()

    def begin(self, st):
        W = self.W
        st.ghost[("ast", W.n)] = True
        st.assume(f_tag(W.aval(st, Ptr(W.n, W.off("LiteralExpression", "mValue")))) == W.P.enum("Slang::Runtime::AtomicValue::Type::E")[self.tag])
        return [st]

    def done(self, st, v):
        W = self.W
        x = W.aval(st, Ptr(W.n, W.off("LiteralExpression", "mValue")))
        self.result(st, ufn("as_" + self.kind, Val, Val)(x), "its value is the written one, of the literal's type")


class ScopeSpec(ExprSpec):
    fn, cls = "scope expression", "ScopeExpression"

    def begin(self, st):
        st.ghost["l"] = st.ghost["x"] = v_none
        return [st]

    def eval_pre(self, st, name, node, res, a):
        W = self.W
        q = self.q(st)
        f = dict(start="mLHS", right="mRHS").get(q)
        if f is None:
            return self.bad(st, "each part is evaluated once")
        ok = self.is_(st, node, f, "the left part is evaluated first, then the right one")
        if q == "right":
            ok = ok and W.need(st, "flow", W.val(st, W.topobj(st)) == st.ghost["l"], "scope expression: the right part is evaluated inside the left object")
        return [st] if ok else []

    def eval_post(self, st, name, node, res, v):
        if self.q(st) == "start":
            st.ghost["l"] = v
            return self.go(st, "right")
        st.ghost["x"] = v
        return self.go(st, "done")

    def done(self, st, v):
        if self.W.need(st, "flow", self.q(st) == "done", "scope expression: both parts are evaluated"):
            self.result(st, st.ghost["x"], "its value is the right part's")


class DispatchSpec(NodeSpec):
    """a node is handed to the function for its kind, once, unchanged"""

    def __init__(self, what, target, is_eval, fields):
        self.fn, self.target, self.is_eval, self.fields = what, target, is_eval, fields

    def begin(self, st):
        W = self.W
        st.ghost["v"] = v_none
        for cls, f, enum, name in self.fields:
            t = to_iv(W.E.load(st, Ptr(W.n, W.off(cls, f)), I32)).t
            st.assume(t == W.P.enum(enum)[name])
        return [st]

    def here(self, st, name, node):
        W = self.W
        ok = W.need(st, "flow", self.q(st) == "start" and name == self.target, "%s: is handled by the rule for its kind, once" % self.fn)
        return ok and W.need(st, "flow", W.peq(st, node, Ptr(W.n, 0)), "%s: the node itself is handled" % self.fn)

    def eval_pre(self, st, name, node, res, a):
        W = self.W
        ok = self.here(st, name, node)
        ok = ok and W.need(st, "flow", W.peq(st, res, Ptr(W.res, 0)), "%s: the value goes to the requested place" % self.fn)
        if ok and len(a) > 3:
            ok = W.need(st, "flow", W.peq(st, a[3], W.topptr(st)), "%s: names are looked up from the innermost scope" % self.fn)
        return [st] if ok else []

    def eval_post(self, st, name, node, res, v):
        return self.go(st, "done")

    def exec_pre(self, st, name, node):
        self.told(st, "notify")
        return [st] if self.here(st, name, node) else []

    def exec_post(self, st, name, node, e, rv):
        return self.go(st, "done", e)

    def done(self, st, v):
        self.W.need(st, "flow", self.q(st) in ("done", "raised"), "%s: is executed" % self.fn)


def unit(fn, spec, cls, args="n", name=None, inline=(), aspects=("flow",), setup=None, expect=("ret",), prop="", timeout=240):
    """proof unit for TreeInterpreter::fn with monitor spec"""
    def run(ctx):
        sp = spec()
        W = World(ctx, sp, set(aspects), inline=inline)
        W.n = W.node(cls)
        a = [Ptr(W.this, 0), Ptr(W.n, 0)]
        if sp.is_eval:
            W.res = W.obj("result")
            a.append(Ptr(W.res, 0))
        st = W.st
        if setup:
            setup(W, st)
        ctx.cover(W.E, st.clone(), "precondition of " + sp.fn)
        sts = sp.begin(st) if hasattr(sp, "begin") else [st]
        seen = set()
        for s in sts:
            if W.E.feasible(s):
                W.run(fn, a + (W.more(s) if hasattr(W, "more") else []), s)
                seen |= W.seen
        miss = [e for e in expect if e not in seen]
        if miss:
            raise SpecError("%s: no path ends in %s" % (fn, miss))
    return Unit(name or fn, TI + fn, run, case="every node, every outcome of its parts", timeout=timeout)


LOGIC = dict(AND=(False, lambda l, r: bool(l and r)), OR=(True, lambda l, r: bool(l or r)),
             NAND=(False, lambda l, r: not (l and r)), NOR=(True, lambda l, r: not (l or r)))
LITS = (("BOOL", "BooleanLiteralExpression", "Bool"), ("DOUBLE", "DoubleLiteralExpression", "Double"), ("FLOAT", "FloatLiteralExpression", "Float"),
        ("INT", "Int32LiteralExpression", "Int32"), ("INT", "Int64LiteralExpression", "Int64"),
        ("STRING", "StringLiteralExpression", "String"))
UNARY_L = dict(OPERATOR_DECREMENT="decrement", OPERATOR_INCREMENT="increment")
UNARY_R = dict(OPERATOR_NOT="not", OPERATOR_VALIDATE="validate", MATH_ADDITION="plus", MATH_SUBTRACT="minus",
               OPERATOR_DECREMENT="decrement", OPERATOR_INCREMENT="increment")


EXPRS = {"AssignmentExpression": "AssignmentExpression", "BinaryExpression": "BinaryExpressionOwner", "CopyExpression": 0, "IsExpression": 0,
         "LiteralExpression": "Int32LiteralExpression", "MethodExpression": 0, "NewExpression": 0, "ScopeExpression": 0, "StringEvalExpression": 0,
         "SymbolExpression": "RuntimeSymbolExpression", "TernaryExpression": 0, "TypecastExpression": 0, "TypeidExpression": 0, "UnaryExpression": 0}
EVALFN = {"LiteralExpression": "evaluateLiteral", "TypecastExpression": "evaluateTypeCastExpression"}
STMTS = {"AssertStatement": "visitAssert", "AssignmentStatement": "visitAssignment", "BreakStatement": "visitBreak", "ContinueStatement": "visitContinue",
         "DeleteStatement": "visitDelete", "ExitStatement": "visitExit", "ForeachStatement": "visitForeach", "ForStatement": "visitFor", "IfStatement": "visitIf",
         "PrintStatement": "visitPrint", "ReturnStatement": "visitReturn", "Statements": "visitStatements", "SwitchStatement": "visitSwitch",
         "ThrowStatement": "visitThrow", "TryStatement": "visitTry", "TypeDeclaration": "visitTypeDeclaration", "TypeInference": "visitTypeDeclaration",
         "WhileStatement": "visitWhile"}


def dispatch_units(aspects, exprs=None, stmts=None):
    out = {}
    NT = "Slang::AST::Node::NodeType::E"
    for k in EXPRS if exprs is None else exprs:
        cls = EXPRS[k] or k
        f = [("Node", "mType", NT, "Expression"), ("Expression", "mExpressionType", "Slang::AST::Expression::ExpressionType::E", k)]
        out["dispatch " + k] = unit("evaluate", lambda k=k, f=f: DispatchSpec(k, EVALFN.get(k, "evaluate" + k), True, f), cls,
                                    name="evaluate " + k, aspects=aspects, expect=("ret", "raise"))
    for k in STMTS if stmts is None else stmts:
        f = [("Node", "mType", NT, "Statement"), ("Statement", "mStatementType", "Slang::AST::Statement::StatementType::E", k)]
        out["dispatch " + k] = unit("visit", lambda k=k, f=f: DispatchSpec(k, STMTS[k], False, f), k, name="visit " + k, inline=("visitStatement",),
                                    aspects=aspects)
    return out


def flow_units(aspects):
    """units of all statement and expression functions by short name, with the given aspects"""
    A = dict(aspects=aspects)
    RR = ("ret", "raise")
    u = {
        "if": unit("visitIf", IfSpec, "IfStatement", **A),
        "while": unit("visitWhile", WhileSpec, "WhileStatement", **A),
        "for": unit("visitFor", ForSpec, "ForStatement", **A),
        "list": unit("process", ListSpec, "Statements", **A),
        "block": unit("visitStatements", BlockSpec, "Statements", **A),
        "ternary": unit("evaluateTernaryExpression", TernarySpec, "TernaryExpression", expect=RR, **A),
        "switch": unit("visitSwitch", SwitchSpec, "SwitchStatement", inline=("visitStatements",), **A),
        "foreach": unit("visitForeach", ForeachSpec, "ForeachStatement", **A),
        "try": unit("visitTry", TrySpec, "TryStatement", inline=("visitStatements",), **A),
        "return": unit("visitReturn", ReturnSpec, "ReturnStatement", **A),
        "throw": unit("visitThrow", ThrowSpec, "ThrowStatement", **A),
        "exit": unit("visitExit", ExitSpec, "ExitStatement", **A),
        "print": unit("visitPrint", PrintSpec, "PrintStatement", **A),
        "expr": unit("visitExpression", ExpressionSpec, "Expression", **A),
        "delete": unit("visitDelete", DeleteSpec, "DeleteStatement", **A),
        "assert": unit("visitAssert", AssertSpec, "AssertStatement", expect=("ret", "own error"), **A),
        "break": unit("visitBreak", BreakSpec, "BreakStatement", **A),
        "continue": unit("visitContinue", ContinueSpec, "ContinueStatement", **A),
        "decl": unit("visitTypeDeclaration", DeclSpec, "TypeDeclaration", **A),
        "assign": unit("visitAssignment", AssignSpec, "AssignmentStatement", **A),
        "assignexpr": unit("evaluateAssignmentExpression", AssignExprSpec, "AssignmentExpression", expect=RR, **A),
        "binary": unit("evaluateBinaryExpression", BinarySpec, "BinaryExpressionOwner", expect=RR + ("own error",), **A),
        "copy": unit("evaluateCopyExpression", lambda: MapSpec("copy expression", "CopyExpression", lambda W, st, v: v), "CopyExpression", expect=RR, **A),
        "is": unit("evaluateIsExpression", lambda: MapSpec("is expression", "IsExpression", lambda W, st, v: v_bool(f_inst(
            v, W.strat(st, Ptr(W.n, W.off("IsExpression", "mMatchType")))))), "IsExpression", expect=RR, **A),
        "cast": unit("evaluateTypeCastExpression", lambda: MapSpec("cast expression", "TypecastExpression", lambda W, st, v: f_cast(
            v, W.strat(st, Ptr(W.n, W.off("TypecastExpression", "mDestinationType"))))), "TypecastExpression", expect=RR, **A),
        "typeid": unit("evaluateTypeidExpression", lambda: MapSpec("typeid expression", "TypeidExpression", lambda W, st, v: ufn("as_String", Val, Val)(v_str(f_type(v)))), "TypeidExpression", expect=RR, **A),
        "scope": unit("evaluateScopeExpression", ScopeSpec, "ScopeExpression", expect=RR, **A),
    }
    for t, (short, table) in LOGIC.items():
        u["logic " + t] = unit("evaluateBooleanBinaryExpression", lambda t=t, s=short, f=table: BoolSpec(t, s, f), "BooleanBinaryExpression",
                               name="evaluateBooleanBinaryExpression " + t, expect=RR, **A)
    for k, t in list(CMPTOK.items()) + [("equal", "COMPARE_UNEQUAL")]:
        u["cmp " + t] = unit("evaluateBooleanBinaryExpression", lambda t=t, k=k: BoolSpec(t, cmp=k, neg=t == "COMPARE_UNEQUAL"), "BooleanBinaryExpression",
                             name="evaluateBooleanBinaryExpression " + t, expect=RR, **A)
    for t, o in UNARY_L.items():
        u["lunary " + t] = unit("evaluateUnaryExpression", lambda t=t, o=o: UnarySpec(t, o, True), "UnaryExpression", name="evaluateUnaryExpression %s on a variable" % t, **A)
    for t, o in UNARY_R.items():
        u["unary " + t] = unit("evaluateUnaryExpression", lambda t=t, o=o: UnarySpec(t, o, False), "UnaryExpression", name="evaluateUnaryExpression " + t, expect=RR, **A)
    for tag, cls, kind in LITS:
        u["literal " + kind] = unit("evaluateLiteral", lambda x=(tag, cls, kind): LiteralSpec(*x), cls, name="evaluateLiteral " + kind, **A)
    return u
