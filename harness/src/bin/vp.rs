fn main() {
    vp_harness::runner::main_with(vp_harness::checks::all)
}
