pub struct Wizer;
impl Wizer { pub fn new() -> Self { Wizer } pub fn init_func(&mut self, _f: &str) -> &mut Self { self } pub fn run(&self, _w: &[u8]) -> Result<Vec<u8>, String> { Err("unavailable".into()) } }
