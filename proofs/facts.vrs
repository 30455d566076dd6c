// Facts about the Unicode data (see DESIGN.md, "Data facts"); evaluated exhaustively on the real getters by `search facts`.
#[verifier::external_body]
pub proof fn fact_rank(k: bool, c: char)
    ensures rank(k, c) <= DEPTH, !mapped(k, c) ==> rank(k, c) == 0,
        mapped(k, c) ==> forall|i: int| 0 <= i < o_dm(c as u32).len() ==> rank(k, #[trigger] o_dm(c as u32)[i]) < rank(k, c),
{ }
