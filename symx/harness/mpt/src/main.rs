fn main() {
    #[cfg(not(symx))]
    {
        let all: Vec<_> = h_mpt::all();
        rt::replay(&all);
    }
}
