/* contracts of the views (exact; proved under C01) */
dstr_t c_dstr_sub2(const dstr_t in, size_t start, size_t end){
    size_t so = MIN(in.len, start), eo = MAX(so, MIN(in.len, end));
    return (dstr_t){ .data = in.data + so, .len = eo - so, .size = eo - so, .fixed_size = true };
}
dstr_t c_dstr_sub(const dstr_t *in, size_t start, size_t end){ return c_dstr_sub2(*in, start, end ? end : in->len); }
