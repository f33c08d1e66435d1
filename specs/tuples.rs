// One tuple type after the other, as the macro in /repo writes them (generated by lib/mktuples.py).
pub open spec fn tuple_item(i: int, v: Seq<Ev>) -> Seq<Ev> {
    seq![Ev::TupleValueBegin(None, offset_v(i))] + v + seq![Ev::TupleValueEnd(None, offset_v(i))]
}
pub open spec fn tuple_begin(n: int) -> Seq<Ev> { seq![Ev::TupleBegin(None, None, None, Some(n as usize))] }
pub open spec fn tuple_end() -> Seq<Ev> { seq![Ev::TupleEnd(None, None, None)] }
// one element, seen from the log
pub proof fn tuple_step(o: Seq<Ev>, x: Seq<Ev>, l: bool, i: int, v: Seq<Ev>)
    ensures (((o + lend(x, l)) + seq![Ev::TupleValueBegin(None, offset_v(i))]) + lend(v, l)) + seq![Ev::TupleValueEnd(None, offset_v(i))]
        == o + lend(x + tuple_item(i, v), l),
{ assert((((o + lend(x, l)) + seq![Ev::TupleValueBegin(None, offset_v(i))]) + lend(v, l)) + seq![Ev::TupleValueEnd(None, offset_v(i))]
        =~= o + lend(x + tuple_item(i, v), l)); }
pub proof fn tuple_first(o: Seq<Ev>, n: int, l: bool)
    ensures o + tuple_begin(n) == o + lend(tuple_begin(n), l),
{ assert(tuple_begin(n) =~= lend(tuple_begin(n), l)); }
pub proof fn tuple_last(o: Seq<Ev>, x: Seq<Ev>, l: bool)
    ensures (o + lend(x, l)) + tuple_end() == o + lend(x + tuple_end(), l),
{ assert((o + lend(x, l)) + tuple_end() =~= o + lend(x + tuple_end(), l)); }
impl<T0: Value> Value for (T0,) {
    open spec fn evs(&self) -> Seq<Ev> { (tuple_begin(1) + tuple_item(0, self.0.evs())) + tuple_end() }
}
//@impl sval | data::seq::{impl<T0: Value> Value for (T0,)}
//@header impl<T0: Value> ValueStream for (T0,)
//@only stream
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 1, l);
        tuple_step(o, tuple_begin(1), l, 0, self.0.evs());
        tuple_last(o, (tuple_begin(1) + tuple_item(0, self.0.evs())), l);
    }
//@end
impl<T0: Value, T1: Value> Value for (T0, T1,) {
    open spec fn evs(&self) -> Seq<Ev> { ((tuple_begin(2) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_end() }
}
//@impl sval | data::seq::{impl<T0: Value, T1: Value> Value for (T0, T1,)}
//@header impl<T0: Value, T1: Value> ValueStream for (T0, T1,)
//@only stream
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 2, l);
        tuple_step(o, tuple_begin(2), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(2) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_last(o, ((tuple_begin(2) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value> Value for (T0, T1, T2,) {
    open spec fn evs(&self) -> Seq<Ev> { (((tuple_begin(3) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_end() }
}
//@impl sval | data::seq::{impl<T0: Value, T1: Value, T2: Value> Value for (T0, T1, T2,)}
//@header impl<T0: Value, T1: Value, T2: Value> ValueStream for (T0, T1, T2,)
//@only stream
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 3, l);
        tuple_step(o, tuple_begin(3), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(3) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(3) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_last(o, (((tuple_begin(3) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value> Value for (T0, T1, T2, T3,) {
    open spec fn evs(&self) -> Seq<Ev> { ((((tuple_begin(4) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_end() }
}
//@impl sval | data::seq::{impl<T0: Value, T1: Value, T2: Value, T3: Value> Value for (T0, T1, T2, T3,)}
//@header impl<T0: Value, T1: Value, T2: Value, T3: Value> ValueStream for (T0, T1, T2, T3,)
//@only stream
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 4, l);
        tuple_step(o, tuple_begin(4), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(4) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(4) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(4) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_last(o, ((((tuple_begin(4) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value> Value for (T0, T1, T2, T3, T4,) {
    open spec fn evs(&self) -> Seq<Ev> { (((((tuple_begin(5) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_end() }
}
//@impl sval | data::seq::{impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value> Value for (T0, T1, T2, T3, T4,)}
//@header impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value> ValueStream for (T0, T1, T2, T3, T4,)
//@only stream
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 5, l);
        tuple_step(o, tuple_begin(5), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(5) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(5) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(5) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_step(o, ((((tuple_begin(5) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l, 4, self.4.evs());
        tuple_last(o, (((((tuple_begin(5) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value> Value for (T0, T1, T2, T3, T4, T5,) {
    open spec fn evs(&self) -> Seq<Ev> { ((((((tuple_begin(6) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_end() }
}
//@impl sval | data::seq::{impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value> Value for (T0, T1, T2, T3, T4, T5,)}
//@header impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value> ValueStream for (T0, T1, T2, T3, T4, T5,)
//@only stream
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 6, l);
        tuple_step(o, tuple_begin(6), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(6) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(6) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(6) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_step(o, ((((tuple_begin(6) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l, 4, self.4.evs());
        tuple_step(o, (((((tuple_begin(6) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())), l, 5, self.5.evs());
        tuple_last(o, ((((((tuple_begin(6) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value> Value for (T0, T1, T2, T3, T4, T5, T6,) {
    open spec fn evs(&self) -> Seq<Ev> { (((((((tuple_begin(7) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_end() }
}
//@impl sval | data::seq::{impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value> Value for (T0, T1, T2, T3, T4, T5, T6,)}
//@header impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value> ValueStream for (T0, T1, T2, T3, T4, T5, T6,)
//@only stream
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 7, l);
        tuple_step(o, tuple_begin(7), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(7) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(7) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(7) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_step(o, ((((tuple_begin(7) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l, 4, self.4.evs());
        tuple_step(o, (((((tuple_begin(7) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())), l, 5, self.5.evs());
        tuple_step(o, ((((((tuple_begin(7) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())), l, 6, self.6.evs());
        tuple_last(o, (((((((tuple_begin(7) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7,) {
    open spec fn evs(&self) -> Seq<Ev> { ((((((((tuple_begin(8) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_end() }
}
//@impl sval | data::seq::{impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7,)}
//@header impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value> ValueStream for (T0, T1, T2, T3, T4, T5, T6, T7,)
//@only stream
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 8, l);
        tuple_step(o, tuple_begin(8), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(8) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(8) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(8) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_step(o, ((((tuple_begin(8) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l, 4, self.4.evs());
        tuple_step(o, (((((tuple_begin(8) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())), l, 5, self.5.evs());
        tuple_step(o, ((((((tuple_begin(8) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())), l, 6, self.6.evs());
        tuple_step(o, (((((((tuple_begin(8) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())), l, 7, self.7.evs());
        tuple_last(o, ((((((((tuple_begin(8) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7, T8,) {
    open spec fn evs(&self) -> Seq<Ev> { (((((((((tuple_begin(9) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_end() }
}
//@impl sval | data::seq::{impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7, T8,)}
//@header impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value> ValueStream for (T0, T1, T2, T3, T4, T5, T6, T7, T8,)
//@only stream
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 9, l);
        tuple_step(o, tuple_begin(9), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(9) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(9) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(9) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_step(o, ((((tuple_begin(9) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l, 4, self.4.evs());
        tuple_step(o, (((((tuple_begin(9) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())), l, 5, self.5.evs());
        tuple_step(o, ((((((tuple_begin(9) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())), l, 6, self.6.evs());
        tuple_step(o, (((((((tuple_begin(9) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())), l, 7, self.7.evs());
        tuple_step(o, ((((((((tuple_begin(9) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())), l, 8, self.8.evs());
        tuple_last(o, (((((((((tuple_begin(9) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,) {
    open spec fn evs(&self) -> Seq<Ev> { ((((((((((tuple_begin(10) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_end() }
}
//@impl sval | data::seq::{impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)}
//@header impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value> ValueStream for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)
//@only stream
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 10, l);
        tuple_step(o, tuple_begin(10), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(10) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(10) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(10) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_step(o, ((((tuple_begin(10) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l, 4, self.4.evs());
        tuple_step(o, (((((tuple_begin(10) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())), l, 5, self.5.evs());
        tuple_step(o, ((((((tuple_begin(10) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())), l, 6, self.6.evs());
        tuple_step(o, (((((((tuple_begin(10) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())), l, 7, self.7.evs());
        tuple_step(o, ((((((((tuple_begin(10) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())), l, 8, self.8.evs());
        tuple_step(o, (((((((((tuple_begin(10) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())), l, 9, self.9.evs());
        tuple_last(o, ((((((((((tuple_begin(10) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value, T10: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,) {
    open spec fn evs(&self) -> Seq<Ev> { (((((((((((tuple_begin(11) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_end() }
}
//@impl sval | data::seq::{impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value, T10: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)}
//@header impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value, T10: Value> ValueStream for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)
//@only stream
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 11, l);
        tuple_step(o, tuple_begin(11), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(11) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(11) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(11) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_step(o, ((((tuple_begin(11) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l, 4, self.4.evs());
        tuple_step(o, (((((tuple_begin(11) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())), l, 5, self.5.evs());
        tuple_step(o, ((((((tuple_begin(11) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())), l, 6, self.6.evs());
        tuple_step(o, (((((((tuple_begin(11) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())), l, 7, self.7.evs());
        tuple_step(o, ((((((((tuple_begin(11) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())), l, 8, self.8.evs());
        tuple_step(o, (((((((((tuple_begin(11) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())), l, 9, self.9.evs());
        tuple_step(o, ((((((((((tuple_begin(11) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())), l, 10, self.10.evs());
        tuple_last(o, (((((((((((tuple_begin(11) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value, T10: Value, T11: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,) {
    open spec fn evs(&self) -> Seq<Ev> { ((((((((((((tuple_begin(12) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_end() }
}
//@impl sval | data::seq::{impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value, T10: Value, T11: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)}
//@header impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value, T10: Value, T11: Value> ValueStream for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)
//@only stream
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 12, l);
        tuple_step(o, tuple_begin(12), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(12) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(12) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(12) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_step(o, ((((tuple_begin(12) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l, 4, self.4.evs());
        tuple_step(o, (((((tuple_begin(12) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())), l, 5, self.5.evs());
        tuple_step(o, ((((((tuple_begin(12) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())), l, 6, self.6.evs());
        tuple_step(o, (((((((tuple_begin(12) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())), l, 7, self.7.evs());
        tuple_step(o, ((((((((tuple_begin(12) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())), l, 8, self.8.evs());
        tuple_step(o, (((((((((tuple_begin(12) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())), l, 9, self.9.evs());
        tuple_step(o, ((((((((((tuple_begin(12) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())), l, 10, self.10.evs());
        tuple_step(o, (((((((((((tuple_begin(12) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())), l, 11, self.11.evs());
        tuple_last(o, ((((((((((((tuple_begin(12) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value, T10: Value, T11: Value, T12: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12,) {
    open spec fn evs(&self) -> Seq<Ev> { (((((((((((((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())) + tuple_end() }
}
//@impl sval | data::seq::{impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value, T10: Value, T11: Value, T12: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12,)}
//@header impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value, T10: Value, T11: Value, T12: Value> ValueStream for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12,)
//@only stream
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 13, l);
        tuple_step(o, tuple_begin(13), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(13) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_step(o, ((((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l, 4, self.4.evs());
        tuple_step(o, (((((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())), l, 5, self.5.evs());
        tuple_step(o, ((((((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())), l, 6, self.6.evs());
        tuple_step(o, (((((((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())), l, 7, self.7.evs());
        tuple_step(o, ((((((((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())), l, 8, self.8.evs());
        tuple_step(o, (((((((((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())), l, 9, self.9.evs());
        tuple_step(o, ((((((((((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())), l, 10, self.10.evs());
        tuple_step(o, (((((((((((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())), l, 11, self.11.evs());
        tuple_step(o, ((((((((((((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())), l, 12, self.12.evs());
        tuple_last(o, (((((((((((((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value, T10: Value, T11: Value, T12: Value, T13: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13,) {
    open spec fn evs(&self) -> Seq<Ev> { ((((((((((((((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())) + tuple_item(13, self.13.evs())) + tuple_end() }
}
//@impl sval | data::seq::{impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value, T10: Value, T11: Value, T12: Value, T13: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13,)}
//@header impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value, T10: Value, T11: Value, T12: Value, T13: Value> ValueStream for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13,)
//@only stream
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 14, l);
        tuple_step(o, tuple_begin(14), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(14) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_step(o, ((((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l, 4, self.4.evs());
        tuple_step(o, (((((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())), l, 5, self.5.evs());
        tuple_step(o, ((((((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())), l, 6, self.6.evs());
        tuple_step(o, (((((((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())), l, 7, self.7.evs());
        tuple_step(o, ((((((((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())), l, 8, self.8.evs());
        tuple_step(o, (((((((((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())), l, 9, self.9.evs());
        tuple_step(o, ((((((((((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())), l, 10, self.10.evs());
        tuple_step(o, (((((((((((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())), l, 11, self.11.evs());
        tuple_step(o, ((((((((((((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())), l, 12, self.12.evs());
        tuple_step(o, (((((((((((((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())), l, 13, self.13.evs());
        tuple_last(o, ((((((((((((((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())) + tuple_item(13, self.13.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value, T10: Value, T11: Value, T12: Value, T13: Value, T14: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14,) {
    open spec fn evs(&self) -> Seq<Ev> { (((((((((((((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())) + tuple_item(13, self.13.evs())) + tuple_item(14, self.14.evs())) + tuple_end() }
}
//@impl sval | data::seq::{impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value, T10: Value, T11: Value, T12: Value, T13: Value, T14: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14,)}
//@header impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value, T10: Value, T11: Value, T12: Value, T13: Value, T14: Value> ValueStream for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14,)
//@only stream
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 15, l);
        tuple_step(o, tuple_begin(15), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(15) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_step(o, ((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l, 4, self.4.evs());
        tuple_step(o, (((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())), l, 5, self.5.evs());
        tuple_step(o, ((((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())), l, 6, self.6.evs());
        tuple_step(o, (((((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())), l, 7, self.7.evs());
        tuple_step(o, ((((((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())), l, 8, self.8.evs());
        tuple_step(o, (((((((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())), l, 9, self.9.evs());
        tuple_step(o, ((((((((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())), l, 10, self.10.evs());
        tuple_step(o, (((((((((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())), l, 11, self.11.evs());
        tuple_step(o, ((((((((((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())), l, 12, self.12.evs());
        tuple_step(o, (((((((((((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())), l, 13, self.13.evs());
        tuple_step(o, ((((((((((((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())) + tuple_item(13, self.13.evs())), l, 14, self.14.evs());
        tuple_last(o, (((((((((((((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())) + tuple_item(13, self.13.evs())) + tuple_item(14, self.14.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value, T10: Value, T11: Value, T12: Value, T13: Value, T14: Value, T15: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15,) {
    open spec fn evs(&self) -> Seq<Ev> { ((((((((((((((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())) + tuple_item(13, self.13.evs())) + tuple_item(14, self.14.evs())) + tuple_item(15, self.15.evs())) + tuple_end() }
}
//@impl sval | data::seq::{impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value, T10: Value, T11: Value, T12: Value, T13: Value, T14: Value, T15: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15,)}
//@header impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value, T10: Value, T11: Value, T12: Value, T13: Value, T14: Value, T15: Value> ValueStream for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15,)
//@only stream
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 16, l);
        tuple_step(o, tuple_begin(16), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(16) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_step(o, ((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l, 4, self.4.evs());
        tuple_step(o, (((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())), l, 5, self.5.evs());
        tuple_step(o, ((((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())), l, 6, self.6.evs());
        tuple_step(o, (((((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())), l, 7, self.7.evs());
        tuple_step(o, ((((((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())), l, 8, self.8.evs());
        tuple_step(o, (((((((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())), l, 9, self.9.evs());
        tuple_step(o, ((((((((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())), l, 10, self.10.evs());
        tuple_step(o, (((((((((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())), l, 11, self.11.evs());
        tuple_step(o, ((((((((((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())), l, 12, self.12.evs());
        tuple_step(o, (((((((((((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())), l, 13, self.13.evs());
        tuple_step(o, ((((((((((((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())) + tuple_item(13, self.13.evs())), l, 14, self.14.evs());
        tuple_step(o, (((((((((((((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())) + tuple_item(13, self.13.evs())) + tuple_item(14, self.14.evs())), l, 15, self.15.evs());
        tuple_last(o, ((((((((((((((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())) + tuple_item(13, self.13.evs())) + tuple_item(14, self.14.evs())) + tuple_item(15, self.15.evs())), l);
    }
//@end
