//! Stand-in for the lexer: the input is a sequence of tokens, each its pattern's index (a byte), the length of its
//! text (a byte) and its text.
use alloc::fmt;
use core::marker::PhantomData;

use crate::ParseError;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Token<'input>(pub usize, pub &'input str);
impl fmt::Display for Token<'_> {
    fn fmt(&self, formatter: &mut fmt::Formatter<'_>) -> Result<(), fmt::Error> {
        fmt::Display::fmt(self.1, formatter)
    }
}

pub struct MatcherBuilder {}

impl MatcherBuilder {
    #[allow(clippy::result_large_err)]
    pub fn new<S>(_exprs: impl IntoIterator<Item = (S, bool)>) -> Result<MatcherBuilder, ()>
    where
        S: AsRef<str>,
    {
        Ok(MatcherBuilder {})
    }

    pub fn matcher<'input, 'builder, E>(&'builder self, text: &'input str) -> Matcher<'input, 'builder, E> {
        Matcher { text, consumed: 0, _a: PhantomData, _b: PhantomData }
    }
}

pub struct Matcher<'input, 'builder, E> {
    text: &'input str,
    consumed: usize,
    _a: PhantomData<fn() -> E>,
    _b: PhantomData<&'builder ()>,
}

impl<'input, E> Iterator for Matcher<'input, '_, E> {
    type Item = Result<(usize, Token<'input>, usize), ParseError<usize, Token<'input>, E>>;

    fn next(&mut self) -> Option<Self::Item> {
        let b = self.text.as_bytes();
        let i = self.consumed;
        if i >= b.len() {
            return None;
        }
        let n = b[i + 1] as usize;
        self.consumed = i + 2 + n;
        let t = unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(b.as_ptr().add(i + 2), n)) };
        Some(Ok((i, Token(b[i] as usize, t), self.consumed)))
    }
}
