fn main() {
    #[cfg(not(symx))]
    {
        let all: Vec<_> = h_smt::all();
        rt::replay(&all);
    }
}
