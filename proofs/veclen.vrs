pub broadcast proof fn lemma_vec_len_bound<T>(v: Vec<T>)
    ensures #![trigger v@] v@.len() <= usize::MAX
{ assert(v.len() == v@.len()); }
