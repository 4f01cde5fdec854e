fn main() {
    #[cfg(not(symx))]
    {
        let all: Vec<_> = h_dec::all();
        rt::replay(&all);
    }
}
