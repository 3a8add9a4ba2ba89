fn main() {
    nd::main(harness_css::run)
}
