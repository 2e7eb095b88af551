//! Offline stand-in for the `peg` crate (rust-peg 0.8): runtime half. The grammar itself comes, unmodified, from
//! the code under test; `peg-macros` next door compiles it. Only what redscript's grammar needs is provided.
pub use peg_macros::parser;

#[derive(Clone, Debug)]
pub enum RuleResult<T> {
    Matched(usize, T),
    Failed,
}

pub trait ParseLiteral {
    fn parse_string_literal(&self, pos: usize, literal: &str) -> RuleResult<()>;
}

impl ParseLiteral for str {
    #[inline]
    fn parse_string_literal(&self, pos: usize, literal: &str) -> RuleResult<()> {
        let l = literal.len();
        if self.len() >= pos + l && &self.as_bytes()[pos..pos + l] == literal.as_bytes() {
            RuleResult::Matched(pos + l, ())
        } else {
            RuleResult::Failed
        }
    }
}

#[doc(hidden)]
#[inline]
pub fn __parse_elem(input: &str, pos: usize) -> RuleResult<char> {
    match input[pos..].chars().next() {
        Some(c) => RuleResult::Matched(pos + c.len_utf8(), c),
        None => RuleResult::Failed,
    }
}

pub mod str {
    use std::fmt;

    #[derive(PartialEq, Eq, Debug, Clone, Copy)]
    pub struct LineCol {
        pub line: usize,
        pub column: usize,
        pub offset: usize,
    }

    impl fmt::Display for LineCol {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{}:{}", self.line, self.column)
        }
    }

    pub(crate) fn position_repr(input: &str, pos: usize) -> LineCol {
        let before = &input[..pos];
        let line = before.as_bytes().iter().filter(|&&c| c == b'\n').count() + 1;
        let column = before.chars().rev().take_while(|&c| c != '\n').count() + 1;
        LineCol { line, column, offset: pos }
    }
}

pub mod error {
    use std::collections::BTreeSet;
    use std::fmt;

    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct ExpectedSet {
        expected: BTreeSet<&'static str>,
    }

    impl ExpectedSet {
        pub fn tokens(&self) -> impl Iterator<Item = &'static str> + '_ {
            self.expected.iter().copied()
        }
    }

    impl fmt::Display for ExpectedSet {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            if self.expected.is_empty() {
                write!(f, "<unreported>")
            } else if self.expected.len() == 1 {
                write!(f, "{}", self.expected.iter().next().unwrap())
            } else {
                write!(f, "one of ")?;
                for (i, s) in self.expected.iter().enumerate() {
                    if i > 0 {
                        write!(f, ", ")?;
                    }
                    write!(f, "{s}")?;
                }
                Ok(())
            }
        }
    }

    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct ParseError<L> {
        pub location: L,
        pub expected: ExpectedSet,
    }

    impl<L: fmt::Display> fmt::Display for ParseError<L> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "error at {}: expected {}", self.location, self.expected)
        }
    }

    impl<L: fmt::Display + fmt::Debug> std::error::Error for ParseError<L> {}

    #[doc(hidden)]
    #[derive(Debug)]
    pub struct ErrorState {
        pub max_err_pos: usize,
        pub suppress_fail: usize,
        pub reparsing: bool,
        pub expected: BTreeSet<&'static str>,
    }

    impl ErrorState {
        pub fn new() -> Self {
            ErrorState { max_err_pos: 0, suppress_fail: 0, reparsing: false, expected: BTreeSet::new() }
        }

        #[cold]
        pub fn mark_failure_slow(&mut self, pos: usize, expected: &'static str) {
            if pos == self.max_err_pos {
                self.expected.insert(expected);
            }
        }

        #[inline]
        pub fn mark_failure(&mut self, pos: usize, expected: &'static str) {
            if self.suppress_fail == 0 {
                if self.reparsing {
                    self.mark_failure_slow(pos, expected);
                } else if pos > self.max_err_pos {
                    self.max_err_pos = pos;
                }
            }
        }

        pub fn into_parse_error(self, input: &str) -> ParseError<crate::str::LineCol> {
            ParseError {
                location: crate::str::position_repr(input, self.max_err_pos),
                expected: ExpectedSet { expected: self.expected },
            }
        }
    }
}
