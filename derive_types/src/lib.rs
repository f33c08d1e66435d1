//! A catalogue of types that derive `Value` (generated by lib/mkderive.py).
#![allow(dead_code)]
use sval_derive::Value;

pub const TAG_A: sval::Tag = sval::Tag::new("derive a");
pub const TAG_B: sval::Tag = sval::Tag::new("derive b");
pub const LABEL_C: sval::Label<'static> = sval::Label::new("constant label");
pub const INDEX_C: isize = 40;

#[derive(Value)]
pub struct S000<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(index = 0)]
pub struct S001<A, B, C> { #[sval(skip)] pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
pub struct S002<A, B, C> { #[sval(flatten)] pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
pub struct S003<A, B, C> { #[sval(tag = TAG_B, data_tag = TAG_A)] pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
pub struct S004<A, B, C> { #[sval(index = 5)] pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
pub struct S005<A, B, C> { #[sval(label = "x")] pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(index = 1)]
pub struct S006<A, B, C> { pub f0: A, #[sval(skip)] pub f1: B, pub f2: C }
#[derive(Value)]
pub struct S007<A, B, C> { pub f0: A, #[sval(flatten)] pub f1: B, pub f2: C }
#[derive(Value)]
pub struct S008<A, B, C> { pub f0: A, #[sval(tag = TAG_B, data_tag = TAG_A)] pub f1: B, pub f2: C }
#[derive(Value)]
pub struct S009<A, B, C> { pub f0: A, #[sval(index = -2)] pub f1: B, pub f2: C }
#[derive(Value)]
pub struct S010<A, B, C> { pub f0: A, #[sval(label = LABEL_C)] pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(index = 2)]
pub struct S011<A, B, C> { pub f0: A, pub f1: B, #[sval(skip)] pub f2: C }
#[derive(Value)]
pub struct S012<A, B, C> { pub f0: A, pub f1: B, #[sval(flatten)] pub f2: C }
#[derive(Value)]
pub struct S013<A, B, C> { pub f0: A, pub f1: B, #[sval(tag = TAG_B, data_tag = TAG_A)] pub f2: C }
#[derive(Value)]
pub struct S014<A, B, C> { pub f0: A, pub f1: B, #[sval(index = 0)] pub f2: C }
#[derive(Value)]
pub struct S015<A, B, C> { pub f0: A, pub f1: B, #[sval(label = "z")] pub f2: C }
#[derive(Value)]
#[sval(tag = TAG_A)]
pub struct S016<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(tag = TAG_A, index = 0)]
pub struct S017<A, B, C> { #[sval(skip)] pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(tag = TAG_A, index = 1)]
pub struct S018<A, B, C> { pub f0: A, #[sval(skip)] pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(tag = TAG_A, index = 2)]
pub struct S019<A, B, C> { pub f0: A, pub f1: B, #[sval(skip)] pub f2: C }
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S020<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(index = 0, unindexed_fields)]
pub struct S021<A, B, C> { #[sval(skip)] pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S022<A, B, C> { #[sval(flatten)] pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S023<A, B, C> { #[sval(tag = TAG_B, data_tag = TAG_A)] pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S024<A, B, C> { #[sval(label = "x")] pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(index = 1, unindexed_fields)]
pub struct S025<A, B, C> { pub f0: A, #[sval(skip)] pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S026<A, B, C> { pub f0: A, #[sval(flatten)] pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S027<A, B, C> { pub f0: A, #[sval(tag = TAG_B, data_tag = TAG_A)] pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S028<A, B, C> { pub f0: A, #[sval(label = LABEL_C)] pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(index = 2, unindexed_fields)]
pub struct S029<A, B, C> { pub f0: A, pub f1: B, #[sval(skip)] pub f2: C }
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S030<A, B, C> { pub f0: A, pub f1: B, #[sval(flatten)] pub f2: C }
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S031<A, B, C> { pub f0: A, pub f1: B, #[sval(tag = TAG_B, data_tag = TAG_A)] pub f2: C }
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S032<A, B, C> { pub f0: A, pub f1: B, #[sval(label = "z")] pub f2: C }
#[derive(Value)]
#[sval(tag = TAG_A, unindexed_fields)]
pub struct S033<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(tag = TAG_A, index = 0, unindexed_fields)]
pub struct S034<A, B, C> { #[sval(skip)] pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(tag = TAG_A, index = 1, unindexed_fields)]
pub struct S035<A, B, C> { pub f0: A, #[sval(skip)] pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(tag = TAG_A, index = 2, unindexed_fields)]
pub struct S036<A, B, C> { pub f0: A, pub f1: B, #[sval(skip)] pub f2: C }
#[derive(Value)]
#[sval(unlabeled_fields)]
pub struct S037<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(index = 0, unlabeled_fields)]
pub struct S038<A, B, C> { #[sval(skip)] pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(unlabeled_fields)]
pub struct S039<A, B, C> { #[sval(flatten)] pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(unlabeled_fields)]
pub struct S040<A, B, C> { #[sval(tag = TAG_B, data_tag = TAG_A)] pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(unlabeled_fields)]
pub struct S041<A, B, C> { #[sval(index = 5)] pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(index = 1, unlabeled_fields)]
pub struct S042<A, B, C> { pub f0: A, #[sval(skip)] pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(unlabeled_fields)]
pub struct S043<A, B, C> { pub f0: A, #[sval(flatten)] pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(unlabeled_fields)]
pub struct S044<A, B, C> { pub f0: A, #[sval(tag = TAG_B, data_tag = TAG_A)] pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(unlabeled_fields)]
pub struct S045<A, B, C> { pub f0: A, #[sval(index = -2)] pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(index = 2, unlabeled_fields)]
pub struct S046<A, B, C> { pub f0: A, pub f1: B, #[sval(skip)] pub f2: C }
#[derive(Value)]
#[sval(unlabeled_fields)]
pub struct S047<A, B, C> { pub f0: A, pub f1: B, #[sval(flatten)] pub f2: C }
#[derive(Value)]
#[sval(unlabeled_fields)]
pub struct S048<A, B, C> { pub f0: A, pub f1: B, #[sval(tag = TAG_B, data_tag = TAG_A)] pub f2: C }
#[derive(Value)]
#[sval(unlabeled_fields)]
pub struct S049<A, B, C> { pub f0: A, pub f1: B, #[sval(index = 0)] pub f2: C }
#[derive(Value)]
#[sval(tag = TAG_A, unlabeled_fields)]
pub struct S050<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(tag = TAG_A, index = 0, unlabeled_fields)]
pub struct S051<A, B, C> { #[sval(skip)] pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(tag = TAG_A, index = 1, unlabeled_fields)]
pub struct S052<A, B, C> { pub f0: A, #[sval(skip)] pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(tag = TAG_A, index = 2, unlabeled_fields)]
pub struct S053<A, B, C> { pub f0: A, pub f1: B, #[sval(skip)] pub f2: C }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)]
pub struct S054<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(index = 0, unlabeled_fields, unindexed_fields)]
pub struct S055<A, B, C> { #[sval(skip)] pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)]
pub struct S056<A, B, C> { #[sval(flatten)] pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)]
pub struct S057<A, B, C> { #[sval(tag = TAG_B, data_tag = TAG_A)] pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(index = 1, unlabeled_fields, unindexed_fields)]
pub struct S058<A, B, C> { pub f0: A, #[sval(skip)] pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)]
pub struct S059<A, B, C> { pub f0: A, #[sval(flatten)] pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)]
pub struct S060<A, B, C> { pub f0: A, #[sval(tag = TAG_B, data_tag = TAG_A)] pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(index = 2, unlabeled_fields, unindexed_fields)]
pub struct S061<A, B, C> { pub f0: A, pub f1: B, #[sval(skip)] pub f2: C }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)]
pub struct S062<A, B, C> { pub f0: A, pub f1: B, #[sval(flatten)] pub f2: C }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)]
pub struct S063<A, B, C> { pub f0: A, pub f1: B, #[sval(tag = TAG_B, data_tag = TAG_A)] pub f2: C }
#[derive(Value)]
#[sval(tag = TAG_A, unlabeled_fields, unindexed_fields)]
pub struct S064<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(tag = TAG_A, index = 0, unlabeled_fields, unindexed_fields)]
pub struct S065<A, B, C> { #[sval(skip)] pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(tag = TAG_A, index = 1, unlabeled_fields, unindexed_fields)]
pub struct S066<A, B, C> { pub f0: A, #[sval(skip)] pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(tag = TAG_A, index = 2, unlabeled_fields, unindexed_fields)]
pub struct S067<A, B, C> { pub f0: A, pub f1: B, #[sval(skip)] pub f2: C }
#[derive(Value)]
pub struct S068<A, B, C>(pub A, pub B, pub C);
#[derive(Value)]
#[sval(index = 0)]
pub struct S069<A, B, C>(#[sval(skip)] pub A, pub B, pub C);
#[derive(Value)]
pub struct S070<A, B, C>(#[sval(flatten)] pub A, pub B, pub C);
#[derive(Value)]
pub struct S071<A, B, C>(#[sval(tag = TAG_B, data_tag = TAG_A)] pub A, pub B, pub C);
#[derive(Value)]
pub struct S072<A, B, C>(#[sval(index = 5)] pub A, pub B, pub C);
#[derive(Value)]
#[sval(index = 1)]
pub struct S073<A, B, C>(pub A, #[sval(skip)] pub B, pub C);
#[derive(Value)]
pub struct S074<A, B, C>(pub A, #[sval(flatten)] pub B, pub C);
#[derive(Value)]
pub struct S075<A, B, C>(pub A, #[sval(tag = TAG_B, data_tag = TAG_A)] pub B, pub C);
#[derive(Value)]
pub struct S076<A, B, C>(pub A, #[sval(index = -2)] pub B, pub C);
#[derive(Value)]
#[sval(index = 2)]
pub struct S077<A, B, C>(pub A, pub B, #[sval(skip)] pub C);
#[derive(Value)]
pub struct S078<A, B, C>(pub A, pub B, #[sval(flatten)] pub C);
#[derive(Value)]
pub struct S079<A, B, C>(pub A, pub B, #[sval(tag = TAG_B, data_tag = TAG_A)] pub C);
#[derive(Value)]
pub struct S080<A, B, C>(pub A, pub B, #[sval(index = 0)] pub C);
#[derive(Value)]
#[sval(tag = TAG_A)]
pub struct S081<A, B, C>(pub A, pub B, pub C);
#[derive(Value)]
#[sval(tag = TAG_A, index = 0)]
pub struct S082<A, B, C>(#[sval(skip)] pub A, pub B, pub C);
#[derive(Value)]
#[sval(tag = TAG_A, index = 1)]
pub struct S083<A, B, C>(pub A, #[sval(skip)] pub B, pub C);
#[derive(Value)]
#[sval(tag = TAG_A, index = 2)]
pub struct S084<A, B, C>(pub A, pub B, #[sval(skip)] pub C);
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S085<A, B, C>(pub A, pub B, pub C);
#[derive(Value)]
#[sval(index = 0, unindexed_fields)]
pub struct S086<A, B, C>(#[sval(skip)] pub A, pub B, pub C);
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S087<A, B, C>(#[sval(flatten)] pub A, pub B, pub C);
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S088<A, B, C>(#[sval(tag = TAG_B, data_tag = TAG_A)] pub A, pub B, pub C);
#[derive(Value)]
#[sval(index = 1, unindexed_fields)]
pub struct S089<A, B, C>(pub A, #[sval(skip)] pub B, pub C);
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S090<A, B, C>(pub A, #[sval(flatten)] pub B, pub C);
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S091<A, B, C>(pub A, #[sval(tag = TAG_B, data_tag = TAG_A)] pub B, pub C);
#[derive(Value)]
#[sval(index = 2, unindexed_fields)]
pub struct S092<A, B, C>(pub A, pub B, #[sval(skip)] pub C);
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S093<A, B, C>(pub A, pub B, #[sval(flatten)] pub C);
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S094<A, B, C>(pub A, pub B, #[sval(tag = TAG_B, data_tag = TAG_A)] pub C);
#[derive(Value)]
#[sval(tag = TAG_A, unindexed_fields)]
pub struct S095<A, B, C>(pub A, pub B, pub C);
#[derive(Value)]
#[sval(tag = TAG_A, index = 0, unindexed_fields)]
pub struct S096<A, B, C>(#[sval(skip)] pub A, pub B, pub C);
#[derive(Value)]
#[sval(tag = TAG_A, index = 1, unindexed_fields)]
pub struct S097<A, B, C>(pub A, #[sval(skip)] pub B, pub C);
#[derive(Value)]
#[sval(tag = TAG_A, index = 2, unindexed_fields)]
pub struct S098<A, B, C>(pub A, pub B, #[sval(skip)] pub C);
#[derive(Value)]
pub struct S099 {  }
#[derive(Value)]
pub struct S100();
#[derive(Value)]
#[sval(tag = TAG_B, label = "none", index = 2)]
pub struct S101 {  }
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S102<A, B> { #[sval(tag = TAG_A, data_tag = TAG_B)] pub f0: A, #[sval(flatten)] pub f1: B }
#[derive(Value)]
#[sval(tag = "TAG_A", index = 1, unindexed_fields)]
pub struct S103<A, B, C, D, E> { #[sval(skip)] pub f0: A, #[sval(data_tag = "TAG_A")] pub f1: B, #[sval(flatten)] pub f2: C, #[sval(skip)] pub f3: D, #[sval(flatten)] pub f4: E }
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S104<A, B, C, D> { #[sval(data_tag = TAG_B)] pub f0: A, pub f1: B, #[sval(skip)] pub f2: C, #[sval(skip)] pub f3: D }
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S105<A, B, C> { pub f0: A, pub f1: B, #[sval(tag = "TAG_B", data_tag = TAG_B)] pub f2: C }
#[derive(Value)]
#[sval(tag = "TAG_A", label = "with \"quotes\"")]
pub struct S106<A, B> { #[sval(skip)] pub f0: A, pub f1: B }
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S107<A, B>(#[sval(label = LABEL_C)] pub A, #[sval(label = "unused", flatten)] pub B);
#[derive(Value)]
pub struct S108<A, B> { #[sval(tag = "TAG_B")] pub f0: A, #[sval(data_tag = "TAG_A")] pub f1: B }
#[derive(Value)]
#[sval(label = "with \"quotes\"", index = 2147483647, unindexed_fields)]
pub struct S109<A, B, C> { #[sval(flatten)] pub f0: A, #[sval(flatten)] pub f1: B, #[sval(flatten)] pub f2: C }
#[derive(Value)]
#[sval(tag = TAG_B, label = LABEL_C)]
pub struct S110<A, B, C>(#[sval(tag = "TAG_B", data_tag = "TAG_A", label = "first")] pub A, #[sval(label = "second label")] pub B, #[sval(skip)] pub C);
#[derive(Value)]
#[sval(tag = "TAG_B", unlabeled_fields)]
pub struct S111<A, B, C, D> { #[sval(skip)] pub f0: A, #[sval(data_tag = TAG_B)] pub f1: B, #[sval(tag = TAG_A, data_tag = "TAG_A")] pub f2: C, #[sval(data_tag = "TAG_A")] pub f3: D }
#[derive(Value)]
#[sval(label = LABEL_C, index = 7)]
pub struct S112<A, B, C>(#[sval(flatten)] pub A, #[sval(data_tag = "TAG_A")] pub B, #[sval(data_tag = "TAG_A")] pub C);
#[derive(Value)]
#[sval(label = LABEL_C, index = 0, unlabeled_fields)]
pub struct S113<A, B, C, D, E> { #[sval(flatten)] pub f0: A, #[sval(skip)] pub f1: B, #[sval(skip)] pub f2: C, #[sval(data_tag = TAG_B)] pub f3: D, pub f4: E }
#[derive(Value)]
#[sval(index = 7)]
pub struct S114<A, B, C>(#[sval(tag = "TAG_B")] pub A, #[sval(skip)] pub B, #[sval(tag = "TAG_B")] pub C);
#[derive(Value)]
#[sval(tag = "TAG_A", index = -300, unindexed_fields)]
pub struct S115<A, B, C> { #[sval(tag = "TAG_B")] pub f0: A, #[sval(data_tag = "TAG_A", label = LABEL_C)] pub f1: B, #[sval(skip)] pub f2: C }
#[derive(Value)]
#[sval(label = "renamed", unindexed_fields)]
pub struct S116<A, B, C, D, E> { #[sval(tag = TAG_A)] pub f0: A, #[sval(skip)] pub f1: B, #[sval(label = "second label")] pub f2: C, pub f3: D, #[sval(label = LABEL_C)] pub f4: E }
#[derive(Value)]
#[sval(index = -300)]
pub struct S117<A, B, C>(#[sval(tag = TAG_A, data_tag = TAG_B)] pub A, #[sval(data_tag = "TAG_A")] pub B, pub C);
#[derive(Value)]
#[sval(label = "renamed", unlabeled_fields)]
pub struct S118<A, B, C> { #[sval(skip)] pub f0: A, pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(index = 1)]
pub struct S119<A, B>(#[sval(flatten)] pub A, #[sval(tag = "TAG_B", data_tag = "TAG_A")] pub B);
#[derive(Value)]
#[sval(index = -300)]
pub struct S120<A, B>(pub A, pub B);
#[derive(Value)]
#[sval(label = "renamed", index = -300, unindexed_fields)]
pub struct S121<A, B>(pub A, pub B);
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)]
pub struct S122<A, B> { #[sval(flatten)] pub f0: A, #[sval(flatten)] pub f1: B }
#[derive(Value)]
#[sval(tag = TAG_B, label = "with \"quotes\"", unindexed_fields)]
pub struct S123<A, B>(#[sval(data_tag = TAG_B)] pub A, #[sval(tag = TAG_A, data_tag = TAG_B)] pub B);
#[derive(Value)]
#[sval(label = "with \"quotes\"", unlabeled_fields, unindexed_fields)]
pub struct S124<A, B> { #[sval(data_tag = "TAG_A")] pub f0: A, pub f1: B }
#[derive(Value)]
pub struct S125<A, B, C>(#[sval(tag = "TAG_B")] pub A, #[sval(skip)] pub B, pub C);
#[derive(Value)]
#[sval(index = 7)]
pub struct S126<A, B, C> { #[sval(tag = TAG_A, data_tag = TAG_B)] pub f0: A, #[sval(tag = TAG_A, data_tag = "TAG_A")] pub f1: B, #[sval(skip)] pub f2: C }
#[derive(Value)]
#[sval(index = 7)]
pub struct S127<A, B, C>(pub A, #[sval(tag = TAG_A, data_tag = TAG_B)] pub B, #[sval(skip)] pub C);
#[derive(Value)]
#[sval(index = 2147483647)]
pub struct S128<A, B> { #[sval(index = 70)] pub f0: A, #[sval(label = "first", index = -4)] pub f1: B }
#[derive(Value)]
#[sval(tag = TAG_A, index = 0, unindexed_fields)]
pub struct S129<A, B, C>(pub A, #[sval(data_tag = TAG_B)] pub B, #[sval(data_tag = "TAG_A")] pub C);
#[derive(Value)]
#[sval(tag = TAG_A, label = LABEL_C)]
pub struct S130<A, B>(#[sval(skip)] pub A, #[sval(tag = TAG_A)] pub B);
#[derive(Value)]
#[sval(label = LABEL_C)]
pub struct S131<A, B, C, D> { #[sval(flatten)] pub f0: A, #[sval(flatten)] pub f1: B, #[sval(flatten)] pub f2: C, #[sval(flatten)] pub f3: D }
#[derive(Value)]
#[sval(tag = "TAG_A")]
pub struct S132<A, B, C>(pub A, #[sval(index = INDEX_C)] pub B, #[sval(skip)] pub C);
#[derive(Value)]
pub struct S133<A, B>(#[sval(skip)] pub A, #[sval(flatten)] pub B);
#[derive(Value)]
#[sval(unlabeled_fields)]
pub struct S134<A> { pub f0: A }
#[derive(Value)]
#[sval(tag = "TAG_A", unindexed_fields)]
pub struct S135<A, B> { pub f0: A, pub f1: B }
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S136<A, B, C> { #[sval(flatten)] pub f0: A, pub f1: B, #[sval(tag = TAG_A)] pub f2: C }
#[derive(Value)]
#[sval(tag = TAG_A)]
pub struct S137<A, B> { #[sval(skip)] pub f0: A, #[sval(label = "second label")] pub f1: B }
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S138<A, B>(#[sval(tag = "TAG_B", data_tag = "TAG_A")] pub A, #[sval(skip)] pub B);
#[derive(Value)]
#[sval(tag = "TAG_A")]
pub struct S139<A, B, C> { #[sval(tag = TAG_A, label = LABEL_C, index = -4)] pub f0: A, #[sval(skip)] pub f1: B, #[sval(data_tag = "TAG_A")] pub f2: C }
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S140<A, B, C, D> { #[sval(tag = TAG_A, label = "second label")] pub f0: A, #[sval(tag = TAG_A, data_tag = "TAG_A", label = "second label")] pub f1: B, #[sval(data_tag = "TAG_A")] pub f2: C, #[sval(skip)] pub f3: D }
#[derive(Value)]
#[sval(tag = TAG_A, unlabeled_fields)]
pub struct S141<A, B, C, D, E> { #[sval(flatten)] pub f0: A, #[sval(flatten)] pub f1: B, #[sval(flatten)] pub f2: C, #[sval(flatten)] pub f3: D, #[sval(skip)] pub f4: E }
#[derive(Value)]
#[sval(index = -300, unindexed_fields)]
pub struct S142<A, B> { #[sval(label = "first")] pub f0: A, #[sval(data_tag = TAG_B)] pub f1: B }
#[derive(Value)]
pub struct S143<A, B, C>(#[sval(tag = TAG_A, label = "first", index = 70)] pub A, #[sval(label = LABEL_C)] pub B, #[sval(label = LABEL_C, index = 70)] pub C);
#[derive(Value)]
#[sval(tag = "TAG_B", label = "with \"quotes\"")]
pub struct S144<A, B, C> { #[sval(tag = TAG_A)] pub f0: A, #[sval(data_tag = TAG_B)] pub f1: B, #[sval(tag = TAG_A, data_tag = TAG_B, label = LABEL_C)] pub f2: C }
#[derive(Value)]
#[sval(tag = TAG_B, label = LABEL_C)]
pub struct S145<A, B, C> { #[sval(flatten)] pub f0: A, #[sval(flatten)] pub f1: B, #[sval(skip)] pub f2: C }
#[derive(Value)]
#[sval(tag = TAG_B)]
pub struct S146<A> { #[sval(tag = "TAG_B")] pub f0: A }
#[derive(Value)]
#[sval(tag = TAG_B, unlabeled_fields, unindexed_fields)]
pub struct S147<A, B> { pub f0: A, #[sval(data_tag = TAG_B)] pub f1: B }
#[derive(Value)]
#[sval(tag = TAG_A, label = LABEL_C, index = -1)]
pub struct S148<A, B, C> { #[sval(flatten)] pub f0: A, #[sval(flatten)] pub f1: B, #[sval(skip)] pub f2: C }
#[derive(Value)]
#[sval(tag = "TAG_B", label = LABEL_C, index = 0, unindexed_fields)]
pub struct S149<A, B>(pub A, pub B);
#[derive(Value)]
#[sval(label = "with \"quotes\"")]
pub struct S150<A, B> { #[sval(label = "first")] pub f0: A, pub f1: B }
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S151<A, B, C, D> { #[sval(flatten)] pub f0: A, #[sval(flatten)] pub f1: B, #[sval(flatten)] pub f2: C, #[sval(skip)] pub f3: D }
#[derive(Value)]
#[sval(tag = TAG_B)]
pub struct S152<A, B, C> { #[sval(tag = TAG_A, label = LABEL_C)] pub f0: A, #[sval(label = LABEL_C, index = 70)] pub f1: B, #[sval(index = 70)] pub f2: C }
#[derive(Value)]
pub struct S153<A, B, C>(#[sval(flatten)] pub A, #[sval(flatten)] pub B, #[sval(skip)] pub C);
#[derive(Value)]
#[sval(tag = "TAG_A", index = 2147483647, unindexed_fields)]
pub struct S154<A, B, C, D> { #[sval(tag = TAG_A)] pub f0: A, #[sval(skip)] pub f1: B, #[sval(flatten)] pub f2: C, #[sval(skip)] pub f3: D }
#[derive(Value)]
#[sval(tag = TAG_A, label = "with \"quotes\"")]
pub struct S155<A, B, C> { #[sval(flatten)] pub f0: A, #[sval(label = "second label")] pub f1: B, #[sval(flatten)] pub f2: C }
#[derive(Value)]
pub struct S156<A, B, C>(#[sval(skip)] pub A, #[sval(data_tag = TAG_B)] pub B, #[sval(skip)] pub C);
#[derive(Value)]
pub struct S157<A, B, C> { #[sval(tag = TAG_A)] pub f0: A, #[sval(tag = "TAG_B")] pub f1: B, pub f2: C }
#[derive(Value)]
#[sval(label = "with \"quotes\"", index = -300, unlabeled_fields, unindexed_fields)]
pub struct S158<A, B, C> { #[sval(tag = "TAG_B", data_tag = TAG_B)] pub f0: A, pub f1: B, #[sval(tag = "TAG_B", data_tag = "TAG_A")] pub f2: C }
#[derive(Value)]
#[sval(index = 1, unlabeled_fields)]
pub struct S159<A> { pub f0: A }
#[derive(Value)]
#[sval(label = LABEL_C, index = -1)]
pub struct S160<A, B> { #[sval(skip)] pub f0: A, pub f1: B }
#[derive(Value)]
#[sval(unindexed_fields)]
pub struct S161<A, B, C> { #[sval(tag = TAG_A, data_tag = "TAG_A")] pub f0: A, #[sval(skip)] pub f1: B, #[sval(label = "second label")] pub f2: C }
#[derive(Value)]
#[sval(tag = "TAG_B", label = "with \"quotes\"")]
pub struct S162<A>(pub A);
#[derive(Value)]
#[sval(label = LABEL_C, index = 2147483647)]
pub struct S163;
#[derive(Value)]
#[sval(tag = TAG_B)]
pub struct S164<A>(pub A);
#[derive(Value)]
#[sval(tag = TAG_A)]
pub struct S165;
#[derive(Value)]
#[sval(tag = TAG_B, index = -300)]
pub struct S166<A>(pub A);
#[derive(Value)]
#[sval(index = INDEX_C)]
pub struct S167;
#[derive(Value)]
pub struct S168<A>(pub A);
#[derive(Value)]
#[sval(label = "renamed", index = 0)]
pub struct S169;
#[derive(Value)]
#[sval(tag = "TAG_A", label = "renamed")]
pub struct S170<A>(pub A);
#[derive(Value)]
#[sval(tag = TAG_B, label = "renamed")]
pub struct S171;
#[derive(Value)]
#[sval(tag = TAG_A, label = "with \"quotes\"")]
pub struct S172<A>(pub A);
#[derive(Value)]
#[sval(tag = "TAG_A", label = "renamed", index = 0)]
pub struct S173;
#[derive(Value)]
#[sval(tag = TAG_A, label = "with \"quotes\"", index = 7)]
pub struct S174<A>(pub A);
#[derive(Value)]
#[sval(tag = "TAG_B")]
pub struct S175;
#[derive(Value)]
#[sval(tag = "TAG_B")]
pub struct S176<A>(pub A);
#[derive(Value)]
#[sval(label = "with \"quotes\"")]
pub struct S177;
#[derive(Value)]
pub struct S178<A>(pub A);
#[derive(Value)]
pub struct S179;
#[derive(Value)]
#[sval(transparent)]
pub struct S180<A>(pub A);
#[derive(Value)]
pub enum E000<A, B> {
    V0,
    V1(A),
    V2(A, B),
    V3 { f0: A, f1: B },
    V4,
}
#[derive(Value)]
#[sval(unlabeled_variants)]
pub enum E001<A, B> {
    V0,
    V1(A),
    V2(A, B),
    V3 { f0: A, f1: B },
    V4,
}
#[derive(Value)]
#[sval(unindexed_variants)]
pub enum E002<A, B> {
    V0,
    V1(A),
    V2(A, B),
    V3 { f0: A, f1: B },
    V4,
}
#[derive(Value)]
#[sval(unlabeled_variants, unindexed_variants)]
pub enum E003<A, B> {
    V0,
    V1(A),
    V2(A, B),
    V3 { f0: A, f1: B },
    V4,
}
#[derive(Value)]
#[sval(dynamic)]
pub enum E004<A, B> {
    V0,
    V1(A),
    V2(A, B),
    V3 { f0: A, f1: B },
    V4,
}
#[derive(Value)]
#[repr(isize)]
pub enum E005<A, B> {
    V0 = 5,
    V1(A),
    V2(A, B),
    V3 { f0: A, f1: B } = -3,
    V4,
}
#[derive(Value)]
#[repr(isize)]
pub enum E006<A, B> {
    V0,
    V1(A) = 10,
    V2(A, B),
    V3 { f0: A, f1: B } = 2,
    V4,
}
#[derive(Value)]
#[repr(isize)]
pub enum E007<A, B> {
    V0,
    V1(A),
    V2(A, B),
    V3 { f0: A, f1: B } = 7,
    V4 = 9,
}
#[derive(Value)]
#[repr(isize)]
pub enum E008<A, B> {
    V0 = -2,
    V1(A),
    V2(A, B),
    V3 { f0: A, f1: B },
    V4,
}
#[derive(Value)]
#[sval(index = INDEX_C)]
pub enum E010<A, B, C, D, E> {
    #[sval(label = LABEL_C, index = -7)] V0(#[sval(tag = "TAG_B")] A, #[sval(tag = TAG_A)] B, C, #[sval(skip)] D),
    #[sval(index = 5, unlabeled_fields)] V1 { #[sval(index = 3)] f0: A, #[sval(index = 70)] f1: B },
    #[sval(index = -7)] V2,
    #[sval(label = "renamed", index = 0, unlabeled_fields)] V3 { #[sval(data_tag = "TAG_A")] f0: A, #[sval(tag = TAG_A)] f1: B, #[sval(flatten)] f2: C, f3: D, #[sval(flatten)] f4: E },
}
#[derive(Value)]
#[repr(isize)]
#[sval(label = "with \"quotes\"", index = 1)]
pub enum E011<A, B> {
    #[sval(label = "renamed", unindexed_fields)] V0(A, #[sval(skip)] B),
    #[sval(label = "renamed")] V1(A) = -10,
    #[sval(tag = TAG_A, label = LABEL_C)] V2,
    V3(A) = -20,
    #[sval(label = LABEL_C)] V4,
}
#[derive(Value)]
#[sval(unindexed_variants)]
pub enum E012 {
    V0,
}
#[derive(Value)]
#[sval(tag = "TAG_A", label = "with \"quotes\"")]
pub enum E013<A, B, C> {
    #[sval(tag = "TAG_B")] V0(A),
    #[sval(tag = TAG_A, unlabeled_fields)] V1 { #[sval(data_tag = "TAG_A", index = 3)] f0: A, f1: B, #[sval(data_tag = TAG_B, index = 0)] f2: C },
    #[sval(label = "renamed", unindexed_fields)] V2(#[sval(tag = TAG_A)] A, #[sval(skip)] B, #[sval(skip)] C),
}
#[derive(Value)]
#[sval(index = 7)]
pub enum E014<A, B> {
    #[sval(index = -7)] V0 { f0: A, #[sval(data_tag = "TAG_A", label = LABEL_C)] f1: B },
    #[sval(label = "renamed", index = -7)] V1,
}
#[derive(Value)]
#[sval(index = INDEX_C)]
pub enum E015<A, B, C, D, E> {
    #[sval(label = "renamed")] V0(A),
    #[sval(unlabeled_fields, unindexed_fields)] V1 { #[sval(data_tag = "TAG_A")] f0: A, f1: B, f2: C, #[sval(tag = TAG_A)] f3: D, #[sval(skip)] f4: E },
    #[sval(label = "renamed")] V2,
}
#[derive(Value)]
#[repr(isize)]
#[sval(tag = TAG_B, unindexed_variants)]
pub enum E016<A> {
    #[sval(label = LABEL_C)] V0(A) = 50,
}
#[derive(Value)]
#[sval(label = LABEL_C)]
pub enum E017<A, B> {
    #[sval(index = INDEX_C)] V0 { #[sval(data_tag = TAG_B)] f0: A, #[sval(tag = "TAG_B", label = "second label")] f1: B },
    #[sval(index = INDEX_C, unindexed_fields)] V1 { f0: A, f1: B },
    #[sval(index = INDEX_C)] V2(A),
}
#[derive(Value)]
#[sval(index = 0, unlabeled_variants)]
pub enum E018<A, B, C, D, E> {
    #[sval(tag = TAG_A)] V0 { #[sval(flatten)] f0: A, f1: B, #[sval(flatten)] f2: C, #[sval(skip)] f3: D, f4: E },
    V1 { #[sval(flatten)] f0: A, #[sval(skip)] f1: B },
    V2(A),
    #[sval(tag = "TAG_B")] V3,
    #[sval(tag = "TAG_B")] V4(A),
}
#[derive(Value)]
#[sval(unindexed_variants)]
pub enum E019<A> {
    #[sval(tag = TAG_A, label = LABEL_C)] V0(A),
}
#[derive(Value)]
#[sval(index = 2147483647)]
pub enum E020<A, B, C, D, E> {
    #[sval(index = 5)] V0(A),
    #[sval(index = 5, unindexed_fields)] V1 { f0: A, #[sval(skip)] f1: B, #[sval(label = "first")] f2: C },
    #[sval(tag = TAG_A, index = 5)] V2(A),
    #[sval(label = "renamed", index = INDEX_C)] V3,
    #[sval(label = LABEL_C, index = 0)] V4 { #[sval(tag = "TAG_B", data_tag = TAG_B, label = "second label")] f0: A, #[sval(tag = "TAG_B", label = "first")] f1: B, #[sval(data_tag = TAG_B)] f2: C, #[sval(label = "second label")] f3: D, #[sval(tag = TAG_A, data_tag = TAG_B)] f4: E },
}
#[derive(Value)]
#[repr(isize)]
#[sval(label = "renamed")]
pub enum E021<A, B, C, D> {
    #[sval(label = "renamed")] V0(#[sval(flatten)] A, B, C) = 60,
    V1(#[sval(skip)] A, #[sval(tag = "TAG_B", data_tag = TAG_B)] B, #[sval(data_tag = TAG_B)] C) = 20,
    #[sval(tag = "TAG_B", label = LABEL_C)] V2 { #[sval(label = LABEL_C)] f0: A, #[sval(data_tag = TAG_B)] f1: B, #[sval(tag = "TAG_B", label = LABEL_C)] f2: C, f3: D } = 70,
    V3(#[sval(tag = TAG_A)] A, #[sval(skip)] B),
}
#[derive(Value)]
#[repr(isize)]
pub enum E022<A, B, C> {
    #[sval(tag = "TAG_B")] V0(#[sval(tag = "TAG_B", data_tag = "TAG_A", label = "second label")] A, #[sval(label = "first")] B, #[sval(label = "first")] C) = -20,
}
#[derive(Value)]
pub enum E023<A, B, C, D> {
    #[sval(tag = "TAG_B", index = 0)] V0 { #[sval(tag = TAG_A, data_tag = TAG_B)] f0: A, #[sval(tag = "TAG_B", label = "first")] f1: B, #[sval(data_tag = "TAG_A", index = -4)] f2: C },
    #[sval(index = 0)] V1(#[sval(skip)] A, B, C, D),
    #[sval(label = LABEL_C, index = INDEX_C, unindexed_fields)] V2(#[sval(data_tag = "TAG_A")] A, B),
    #[sval(label = "renamed", index = 0)] V3,
}
#[derive(Value)]
#[repr(isize)]
#[sval(tag = TAG_A, index = 2147483647, unindexed_variants)]
pub enum E024<A, B> {
    V0 { #[sval(skip)] f0: A, f1: B } = -10,
    #[sval(label = LABEL_C)] V1(A) = 20,
    V2(A),
}
#[derive(Value)]
#[sval(tag = "TAG_A", label = LABEL_C)]
pub enum E025<A, B, C> {
    V0 { f0: A },
    #[sval(tag = TAG_A, label = "renamed")] V1,
    V2(A),
    #[sval(unlabeled_fields)] V3 { #[sval(tag = "TAG_B", index = 70)] f0: A, #[sval(tag = "TAG_B")] f1: B, #[sval(skip)] f2: C },
}
#[derive(Value)]
#[repr(isize)]
pub enum E026<A, B> {
    V0 { #[sval(data_tag = "TAG_A", label = LABEL_C)] f0: A, #[sval(skip)] f1: B } = -10,
    #[sval(tag = "TAG_B", label = LABEL_C)] V1,
    V2(#[sval(skip)] A, #[sval(data_tag = TAG_B, index = 70)] B) = -20,
}
#[derive(Value)]
#[repr(isize)]
#[sval(dynamic)]
pub enum E027<A> {
    V0,
    #[sval(label = "renamed")] V1 = 40,
    V2(A) = 50,
    #[sval(label = "renamed")] V3,
}
#[derive(Value)]
#[sval(label = LABEL_C)]
pub enum E028<A, B, C, D, E> {
    #[sval(tag = "TAG_B")] V0,
    V1 { #[sval(tag = "TAG_B", index = -4)] f0: A, #[sval(label = "first")] f1: B, #[sval(tag = "TAG_B")] f2: C },
    #[sval(unindexed_fields)] V2 { #[sval(skip)] f0: A, f1: B, #[sval(flatten)] f2: C },
    #[sval(label = LABEL_C)] V3 { f0: A, #[sval(skip)] f1: B, f2: C, #[sval(skip)] f3: D, f4: E },
}
#[derive(Value)]
#[sval(label = "with \"quotes\"")]
pub enum E029<A, B, C> {
    #[sval(label = LABEL_C, index = 5)] V0 { #[sval(tag = "TAG_B", index = 0)] f0: A, #[sval(skip)] f1: B, f2: C },
}
#[derive(Value)]
pub enum E030<A, B> {
    #[sval(label = "renamed")] V0,
    #[sval(tag = TAG_A, label = "renamed", unindexed_fields)] V1(#[sval(tag = TAG_A)] A, #[sval(skip)] B),
    #[sval(tag = TAG_A, label = "renamed")] V2(A),
}
#[derive(Value)]
#[sval(tag = TAG_B)]
pub enum E031<A, B, C> {
    #[sval(tag = TAG_A, index = -7, unlabeled_fields)] V0 { f0: A },
    #[sval(index = 0, unindexed_fields)] V1(A, B),
    #[sval(label = "renamed", index = INDEX_C, unindexed_fields)] V2 { #[sval(tag = TAG_A)] f0: A, #[sval(data_tag = TAG_B)] f1: B, #[sval(tag = "TAG_B")] f2: C },
}
#[derive(Value)]
#[sval(tag = TAG_A, label = LABEL_C, unlabeled_variants)]
pub enum E032<A, B, C, D> {
    V0(#[sval(label = "first")] A, #[sval(skip)] B, #[sval(skip)] C, #[sval(label = "second label")] D),
    #[sval(tag = "TAG_B")] V1,
    #[sval(tag = "TAG_B")] V2(#[sval(label = LABEL_C)] A, #[sval(label = "unused", flatten)] B, #[sval(label = "unused", flatten)] C),
    V3 { #[sval(tag = TAG_A, index = 0)] f0: A, #[sval(index = 0)] f1: B, #[sval(label = LABEL_C)] f2: C, #[sval(tag = TAG_A, data_tag = "TAG_A", index = INDEX_C)] f3: D },
}
#[derive(Value)]
#[sval(label = "with \"quotes\"", unlabeled_variants)]
pub enum E033<A, B, C> {
    #[sval(unindexed_fields)] V0 { #[sval(skip)] f0: A, f1: B, f2: C },
    V1,
    V2,
}
#[derive(Value)]
#[repr(isize)]
#[sval(tag = TAG_A, label = "renamed", unindexed_variants)]
pub enum E034<A> {
    V0,
    #[sval(unlabeled_fields, unindexed_fields)] V1 { f0: A } = 70,
}
#[derive(Value)]
pub enum E035<A, B, C> {
    #[sval(label = LABEL_C)] V0(#[sval(label = "unused", flatten)] A, #[sval(label = "unused", flatten)] B),
    #[sval(tag = "TAG_B", label = "renamed")] V1(A),
    #[sval(label = LABEL_C)] V2,
    #[sval(label = "renamed")] V3(A, B),
    V4(#[sval(tag = "TAG_B", label = LABEL_C)] A, #[sval(skip)] B, #[sval(data_tag = TAG_B, label = "second label")] C),
}
#[derive(Value)]
#[sval(label = "renamed", index = 0, unindexed_variants)]
pub enum E036<A, B> {
    #[sval(label = LABEL_C)] V0,
    #[sval(tag = TAG_A, label = "renamed")] V1,
    V2 { #[sval(data_tag = TAG_B, label = "first")] f0: A, #[sval(tag = "TAG_B")] f1: B },
}
#[derive(Value)]
#[sval(tag = TAG_A, label = LABEL_C)]
pub enum E037<A, B, C, D> {
    #[sval(label = "renamed")] V0,
    V1(A, #[sval(index = -1)] B, #[sval(skip)] C, D),
    #[sval(tag = TAG_A)] V2,
    #[sval(label = "renamed", unlabeled_fields)] V3 { f0: A, f1: B, #[sval(skip)] f2: C },
}
#[derive(Value)]
#[repr(isize)]
pub enum E038<A, B, C, D> {
    #[sval(tag = TAG_A, unindexed_fields)] V0(#[sval(flatten)] A, #[sval(tag = TAG_A)] B, C) = 70,
    V1(A),
    #[sval(unindexed_fields)] V2 { #[sval(label = LABEL_C)] f0: A, f1: B, f2: C, f3: D },
    #[sval(tag = TAG_A)] V3(A),
}
#[derive(Value)]
#[repr(isize)]
pub enum E039<A, B, C, D, E> {
    #[sval(label = "renamed", unindexed_fields)] V0 { f0: A, #[sval(flatten)] f1: B, #[sval(skip)] f2: C, #[sval(data_tag = TAG_B, label = "second label")] f3: D, #[sval(flatten)] f4: E } = 30,
    #[sval(tag = "TAG_B")] V1(A) = 20,
    #[sval(tag = TAG_A, label = "renamed")] V2(#[sval(skip)] A, #[sval(label = "unused", flatten)] B) = 10,
    #[sval(label = LABEL_C)] V3 { #[sval(label = "second label", index = -4)] f0: A, #[sval(index = -1)] f1: B, #[sval(skip)] f2: C, #[sval(tag = TAG_A, label = "first")] f3: D } = 40,
}
#[derive(Value)]
#[sval(index = INDEX_C, unindexed_variants)]
pub enum E040<A, B, C, D> {
    #[sval(unlabeled_fields)] V0 { #[sval(data_tag = TAG_B)] f0: A, #[sval(flatten)] f1: B, #[sval(flatten)] f2: C, #[sval(flatten)] f3: D },
    #[sval(tag = "TAG_B")] V1,
    V2,
    #[sval(label = LABEL_C)] V3,
    #[sval(tag = TAG_A, label = LABEL_C)] V4(A),
}
#[derive(Value)]
#[repr(isize)]
#[sval(label = LABEL_C)]
pub enum E041<A, B, C> {
    #[sval(label = LABEL_C)] V0 { f0: A, #[sval(label = LABEL_C)] f1: B, #[sval(tag = "TAG_B")] f2: C } = 10,
}
#[derive(Value)]
#[repr(isize)]
#[sval(unlabeled_variants)]
pub enum E042<A, B, C> {
    #[sval(tag = "TAG_B")] V0 { #[sval(data_tag = TAG_B)] f0: A, #[sval(tag = TAG_A)] f1: B, f2: C },
}
#[derive(Value)]
#[sval(unlabeled_variants)]
pub enum E043<A, B, C> {
    #[sval(tag = "TAG_B", unindexed_fields)] V0 { f0: A, #[sval(data_tag = TAG_B, label = LABEL_C)] f1: B, #[sval(data_tag = "TAG_A", label = "second label")] f2: C },
    V1(A),
    V2,
    V3,
    #[sval(unindexed_fields)] V4 { #[sval(data_tag = "TAG_A")] f0: A, f1: B, #[sval(tag = "TAG_B")] f2: C },
}
#[derive(Value)]
#[repr(isize)]
#[sval(label = "renamed")]
pub enum E044<A, B, C, D, E> {
    #[sval(tag = "TAG_B", label = LABEL_C, unlabeled_fields)] V0 { f0: A, #[sval(skip)] f1: B, #[sval(skip)] f2: C, #[sval(tag = TAG_A)] f3: D } = -20,
    V1 { #[sval(label = "first")] f0: A, #[sval(skip)] f1: B, f2: C, #[sval(data_tag = "TAG_A")] f3: D, #[sval(label = "first")] f4: E },
    #[sval(label = "renamed", unlabeled_fields)] V2 { #[sval(flatten)] f0: A, f1: B, f2: C, #[sval(flatten)] f3: D } = 70,
    #[sval(label = "renamed")] V3 { #[sval(flatten)] f0: A, #[sval(label = "first")] f1: B, #[sval(skip)] f2: C, #[sval(flatten)] f3: D },
}
#[derive(Value)]
#[sval(dynamic)]
pub enum E045<A, B, C> {
    #[sval(unindexed_fields)] V0(#[sval(label = "unused", flatten)] A, #[sval(tag = "TAG_B", label = "second label")] B, #[sval(skip)] C),
}
