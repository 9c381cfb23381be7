fn main() {
    println!("cargo:rerun-if-changed=src/yul.lalrpop");
    lalrpop::Configuration::new().set_in_dir("src").set_out_dir(std::env::var("OUT_DIR").unwrap()).process().unwrap();
}
