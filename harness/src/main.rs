fn main() {
    nd::main(harness::run)
}
