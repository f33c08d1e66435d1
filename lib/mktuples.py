"""Writes specs/tuples.rs: the sixteen tuple types."""
import os
out = ["// One tuple type after the other, as the macro in /repo writes them (generated by lib/mktuples.py).",
"""pub open spec fn tuple_item(i: int, v: Seq<Ev>) -> Seq<Ev> {
    seq![Ev::TupleValueBegin(None, offset_v(i))] + v + seq![Ev::TupleValueEnd(None, offset_v(i))]
}
pub open spec fn tuple_begin(n: int) -> Seq<Ev> { seq![Ev::TupleBegin(None, None, None, Some(n as usize))] }
pub open spec fn tuple_end() -> Seq<Ev> { seq![Ev::TupleEnd(None, None, None)] }
// one element, seen from the log
pub proof fn tuple_step(o: Seq<Ev>, x: Seq<Ev>, l: bool, i: int, v: Seq<Ev>)
    ensures (((o + lend(x, l)) + seq![Ev::TupleValueBegin(None, offset_v(i))]) + lend(v, l)) + seq![Ev::TupleValueEnd(None, offset_v(i))]
        == o + lend(x + tuple_item(i, v), l),
{ assert((((o + lend(x, l)) + seq![Ev::TupleValueBegin(None, offset_v(i))]) + lend(v, l)) + seq![Ev::TupleValueEnd(None, offset_v(i))]
        =~= o + lend(x + tuple_item(i, v), l)); }
pub proof fn tuple_first(o: Seq<Ev>, n: int, l: bool)
    ensures o + tuple_begin(n) == o + lend(tuple_begin(n), l),
{ assert(tuple_begin(n) =~= lend(tuple_begin(n), l)); }
pub proof fn tuple_last(o: Seq<Ev>, x: Seq<Ev>, l: bool)
    ensures (o + lend(x, l)) + tuple_end() == o + lend(x + tuple_end(), l),
{ assert((o + lend(x, l)) + tuple_end() =~= o + lend(x + tuple_end(), l)); }"""]
for n in range(1, 17):
    g = ", ".join(f"T{i}: Value" for i in range(n))
    t = ", ".join(f"T{i}" for i in range(n)) + ","
    evs = f"tuple_begin({n})"
    steps = [f"tuple_first(o, {n}, l);"]
    for i in range(n):
        steps.append(f"tuple_step(o, {evs}, l, {i}, self.{i}.evs());")
        evs = f"({evs} + tuple_item({i}, self.{i}.evs()))"
    steps.append(f"tuple_last(o, {evs}, l);")
    out.append(f"impl<{g}> Value for ({t}) {{\n    open spec fn evs(&self) -> Seq<Ev> {{ {evs} + tuple_end() }}\n}}")
    path = "data::seq::{impl<%s> Value for (%s)}" % (g, t)
    out.append(f"//@impl sval | {path}\n//@header impl<{g}> ValueStream for ({t})\n//@only stream\n//@head stream\n"
               "    proof {\n        let o = (*old(stream)).st().log;\n        let l = (*old(stream)).st().lends;\n        "
               + "\n        ".join(steps) + "\n    }\n//@end")
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs", "tuples.rs"), "w").write("\n".join(out) + "\n")
