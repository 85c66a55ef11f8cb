fn main() {
    std::process::exit(vharness::run::main());
}
