// the rows of the code's table (x_nk: code points, x_nt: names, as extracted) are the listed rows
pub open spec fn x_run(k: int) -> bool { x_nk_s(k) == u_nk_s(k) && x_nk_b(k) == u_nk_b(k) && x_nk_s(k + 1) == u_nk_s(k + 1) }
pub open spec fn x_nk_sorted() -> bool { forall|i: int, j: int| 0 <= i < j < L_x_nk ==> #[trigger] x_nk(i) < #[trigger] x_nk(j) }
proof fn lemma_ns_next(k: int)
    requires 0 <= k < N_x_nk
    ensures x_nk_s(k) == u_nk_s(k), x_nk_s(k + 1) == u_nk_s(k + 1), x_nk_b(k) == u_nk_b(k), x_nk_s(k) < x_nk_s(k + 1)
{ x_runs_at(k); x_same_len(); n_runs_at(k); }
proof fn lemma_xs(a: int, b: int)
    requires 0 <= a < b <= N_x_nk
    ensures x_nk_s(a) < x_nk_s(b)
    decreases b - a
{ lemma_ns_next(b - 1); if a < b - 1 { lemma_xs(a, b - 1); } }
proof fn lemma_x(i: int)
    requires 0 <= i < L_x_nk
    ensures x_nk(i) == u_nk(i), x_nt(i) == i
{
    x_same_len(); x_text();
    x_nk_in(i); u_nk_in(i); x_nt_in(i);
    let (a, b) = (x_nk_run(i), u_nk_run(i));
    lemma_ns_next(a); lemma_ns_next(b);
    if a < b { if a + 1 < b { lemma_xs(a + 1, b); } }
    if b < a { if b + 1 < a { lemma_xs(b + 1, a); } }
}
proof fn lemma_x_sorted()
    ensures x_nk_sorted()
{ x_same_len(); assert forall|i: int, j: int| 0 <= i < j < L_x_nk implies #[trigger] x_nk(i) < #[trigger] x_nk(j) by { lemma_x(i); lemma_x(j); lemma_nk_sorted(i, j); } }
