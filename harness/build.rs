// Generates the parser from the copied src/yul.lalrpop exactly as the product's build script does.
fn main() {
    println!("cargo:rerun-if-changed=src/yul.lalrpop");
    println!("cargo:rustc-env=GIT_HASH=verif");
    lalrpop::Configuration::new().set_in_dir("src").set_out_dir(std::env::var("OUT_DIR").unwrap()).process().unwrap();
}
