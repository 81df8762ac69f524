macro_rules! inst { ($($n:ident),*) => { $(#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct $n;)* }; }
inst!(Instance1, Instance2, Instance3, Instance4, Instance5, Instance6, Instance7, Instance8);
