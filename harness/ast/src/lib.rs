//! The generated parser on given tokens; the tree as bytes.
#![allow(warnings)]
pub mod yul2ir {
    pub mod ast;
    pub mod utils;
}
#[path = "yul.rs"]
pub mod yul;
use yul2ir::ast::*;

struct Out(*mut u8, usize);

impl Out {
    fn b(&mut self, c: u8) {
        unsafe { *self.0.add(self.1) = c };
        self.1 += 1;
    }
    fn s(&mut self, s: &str) {
        self.b(s.len() as u8);
        for c in s.as_bytes() {
            self.b(*c);
        }
    }
    fn n(&mut self, n: usize) {
        self.b(n as u8);
    }
    fn ids(&mut self, v: &[Identifier]) {
        self.n(v.len());
        for i in v {
            self.s(&i.name);
        }
    }
    fn typed(&mut self, v: &[TypedIdentifier]) {
        self.n(v.len());
        for i in v {
            self.s(&i.identifier.name);
            match &i.type_name {
                None => self.b(b'-'),
                Some(t) => {
                    self.b(b':');
                    self.s(&t.type_name.name);
                }
            }
        }
    }
    fn ty(&mut self, t: &Option<Identifier>) {
        match t {
            None => self.b(b'-'),
            Some(t) => {
                self.b(b':');
                self.s(&t.name);
            }
        }
    }
    fn object(&mut self, o: &Object) {
        self.b(b'O');
        self.s(&o.name);
        self.block(&o.code);
        self.n(o.inner_segments.len());
        for s in &o.inner_segments {
            match s {
                InnerSegment::Object(o) => self.object(o),
                InnerSegment::Data(n, v) => {
                    self.b(b'D');
                    self.s(n);
                    self.n(v.len());
                    for d in v {
                        match d {
                            DataLiteral::HexLiteral(s) => {
                                self.b(b'h');
                                self.s(s);
                            }
                            DataLiteral::StringLiteral(s) => {
                                self.b(b's');
                                self.s(s);
                            }
                        }
                    }
                }
            }
        }
    }
    fn block(&mut self, b: &Block) {
        self.n(b.statements.len());
        for s in &b.statements {
            self.stmt(s);
        }
    }
    fn stmt(&mut self, s: &Statement) {
        match s {
            Statement::Assignment(a) => {
                self.b(b'A');
                self.ids(&a.identifiers);
                self.expr(&a.value);
            }
            Statement::VariableDeclaration(v) => {
                self.b(b'V');
                self.typed(&v.identifiers);
                match &v.value {
                    None => self.b(b'-'),
                    Some(e) => self.expr(e),
                }
            }
            Statement::If(i) => {
                self.b(b'I');
                self.expr(&i.cond);
                self.block(&i.body);
            }
            Statement::For(f) => {
                self.b(b'R');
                self.block(&f.init_block);
                self.expr(&f.condition);
                self.block(&f.post_block);
                self.block(&f.execution_block);
            }
            Statement::Switch(w) => {
                self.b(b'S');
                self.expr(&w.condition);
                let (cases, default) = match &w.opt {
                    SwitchOptions::Cases(c, d) => (&c[..], d.as_ref()),
                    SwitchOptions::Default(d) => (&[][..], Some(d)),
                };
                self.n(cases.len());
                for c in cases {
                    self.lit(&c.case);
                    self.block(&c.body);
                }
                match default {
                    None => self.b(b'-'),
                    Some(d) => {
                        self.b(b'd');
                        self.block(&d.body);
                    }
                }
            }
            Statement::Leave => self.b(b'l'),
            Statement::Break => self.b(b'b'),
            Statement::Continue => self.b(b'c'),
            Statement::Block(b) => {
                self.b(b'B');
                self.block(b);
            }
            Statement::FunctionDefinition(f) => {
                self.b(b'F');
                self.s(&f.name.name);
                self.typed(&f.params);
                self.typed(&f.returns);
                self.block(&f.body);
            }
            Statement::FunctionCall(c) => {
                self.b(b'C');
                self.call(c);
            }
            _ => self.b(b'?'),
        }
    }
    fn call(&mut self, c: &FunctionCall) {
        self.s(&c.id.name);
        self.n(c.arguments.len());
        for a in &c.arguments {
            self.expr(a);
        }
    }
    fn expr(&mut self, e: &Expression) {
        match e {
            Expression::Identifier(i) => {
                self.b(b'i');
                self.s(&i.name);
            }
            Expression::FunctionCall(c) => {
                self.b(b'C');
                self.call(c);
            }
            Expression::Literal(l) => self.lit(l),
        }
    }
    fn lit(&mut self, l: &Literal) {
        match l {
            Literal::TrueLiteral(t) => {
                self.b(b't');
                self.ty(t);
            }
            Literal::FalseLiteral(t) => {
                self.b(b'f');
                self.ty(t);
            }
            Literal::HexNumberLiteral(h, t) => {
                self.b(b'x');
                self.s(&h.hex);
                self.ty(t);
            }
            Literal::DecimalNumberLiteral(d, t) => {
                self.b(b'n');
                self.s(&d.dec);
                self.ty(t);
            }
            Literal::StringLiteral(s, t) => {
                self.b(b's');
                self.s(&s.str);
                self.ty(t);
            }
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn fe_parse(p: *const u8, n: usize, out: *mut u8) -> usize {
    let t = std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n));
    let mut o = Out(out, 0);
    match yul::ObjectParser::new().parse(t) {
        Ok(x) => {
            o.object(&x);
            std::mem::forget(x);
        }
        Err(e) => {
            o.b(b'E');
            std::mem::forget(e);
        }
    }
    o.1
}

/// The buffers of the native replay.
#[no_mangle]
pub extern "C" fn fe_buffer(n: usize) -> *mut u8 {
    Box::leak(vec![0u8; n].into_boxed_slice()).as_mut_ptr()
}
