// the rows of the code's table (x_dk, x_du: as extracted) are the listed rows
pub open spec fn x_row(i: int) -> bool { x_dk(i) == u_dk(i) && x_du(i) == u_du(i) }
proof fn lemma_x(i: int)
    requires 0 <= i < XDM
    ensures x_dk(i) == u_dk(i), x_du(i) == u_du(i)
{ x_rows_at(i); }
proof fn lemma_x_sorted()
    ensures x_sorted()
{ assert forall|i: int, j: int| 0 <= i < j < XDM implies #[trigger] x_dk(i) < #[trigger] x_dk(j) by { lemma_x(i); lemma_x(j); lemma_dk_sorted(i, j); } }
pub open spec fn x_sorted() -> bool { forall|i: int, j: int| 0 <= i < j < XDM ==> #[trigger] x_dk(i) < #[trigger] x_dk(j) }
