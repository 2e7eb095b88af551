//! Offline stand-in for the `peg-macros` crate: compiles the subset of rust-peg 0.8 grammars that redscript uses
//! (ordered choice, labelled sequences with actions, repetition with separators and bounds, lookahead, slices,
//! rule parameters, precedence climbing) with the same matching semantics.
use proc_macro2::{Delimiter, Group, Ident, Literal, TokenStream, TokenTree};
use quote::{format_ident, quote};
use std::collections::HashSet;

#[derive(Clone, Debug)]
enum Expr {
    Lit(Literal),
    Pattern(TokenStream),
    Call(Ident, Vec<TokenStream>, Vec<Arg>),
    Method(Ident, TokenStream),
    Choice(Vec<Expr>),
    Seq(Vec<(Option<TokenStream>, Expr)>, Option<(bool, TokenStream)>),
    Opt(Box<Expr>),
    Repeat { inner: Box<Expr>, sep: Option<Box<Expr>>, min: Option<TokenStream>, max: Option<TokenStream> },
    Pos(Box<Expr>),
    Neg(Box<Expr>),
    Slice(Box<Expr>),
    Quiet(Box<Expr>),
    Expected(TokenStream),
    Position,
    Prec(Vec<Vec<Op>>),
    PrecArg(bool),
}

#[derive(Clone, Debug)]
enum Arg {
    Peg(Expr),
    Rust(TokenStream),
}

#[derive(Clone, Debug)]
struct Op {
    elems: Vec<(Option<TokenStream>, Expr)>,
    action: TokenStream,
}

struct P {
    t: Vec<TokenTree>,
    i: usize,
}

impl P {
    fn new(ts: TokenStream) -> Self {
        P { t: ts.into_iter().collect(), i: 0 }
    }
    fn peek(&self) -> Option<&TokenTree> {
        self.t.get(self.i)
    }
    fn peek_n(&self, n: usize) -> Option<&TokenTree> {
        self.t.get(self.i + n)
    }
    fn next(&mut self) -> TokenTree {
        let t = self.t.get(self.i).cloned().unwrap_or_else(|| panic!("unexpected end of grammar"));
        self.i += 1;
        t
    }
    fn is_punct_at(&self, n: usize, c: char) -> bool {
        matches!(self.peek_n(n), Some(TokenTree::Punct(p)) if p.as_char() == c)
    }
    fn is_punct(&self, c: char) -> bool {
        self.is_punct_at(0, c)
    }
    fn is_ident_at(&self, n: usize, s: &str) -> bool {
        matches!(self.peek_n(n), Some(TokenTree::Ident(i)) if i == s)
    }
    fn group_at(&self, n: usize, d: Delimiter) -> Option<&Group> {
        match self.peek_n(n) {
            Some(TokenTree::Group(g)) if g.delimiter() == d => Some(g),
            _ => None,
        }
    }
    fn eat_punct(&mut self, c: char) -> bool {
        if self.is_punct(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn ident(&mut self) -> Ident {
        match self.next() {
            TokenTree::Ident(i) => i,
            t => panic!("expected identifier, found `{t}`"),
        }
    }
    fn done(&self) -> bool {
        self.i >= self.t.len()
    }

    fn choice(&mut self) -> Expr {
        let mut v = vec![self.seq()];
        while self.is_punct('/') {
            self.i += 1;
            v.push(self.seq());
        }
        if v.len() == 1 {
            v.pop().unwrap()
        } else {
            Expr::Choice(v)
        }
    }

    fn at_rule_start(&self) -> bool {
        (self.is_ident_at(0, "rule") && matches!(self.peek_n(1), Some(TokenTree::Ident(_))))
            || self.is_ident_at(0, "pub")
            || self.is_ident_at(0, "use")
            || (self.is_punct('#') && self.group_at(1, Delimiter::Bracket).is_some())
    }

    fn elems(&mut self) -> Vec<(Option<TokenStream>, Expr)> {
        let mut v = vec![];
        loop {
            if self.done() || self.at_rule_start() {
                break;
            }
            match self.peek().unwrap() {
                TokenTree::Punct(p) if matches!(p.as_char(), '/' | '>' | ';' | ',' | '-') => break,
                TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => break,
                _ => {}
            }
            v.push(self.elem());
        }
        v
    }

    fn seq(&mut self) -> Expr {
        let v = self.elems();
        if let Some(g) = self.group_at(0, Delimiter::Brace).cloned() {
            self.i += 1;
            let mut inner = P::new(g.stream());
            let fallible = inner.eat_punct('?');
            let code: TokenStream = inner.t[inner.i..].iter().cloned().collect();
            return Expr::Seq(v, Some((fallible, code)));
        }
        if v.len() == 1 && v[0].0.is_none() {
            return v.into_iter().next().unwrap().1;
        }
        Expr::Seq(v, None)
    }

    fn elem(&mut self) -> (Option<TokenStream>, Expr) {
        if let (Some(TokenTree::Ident(_)), true) = (self.peek(), self.is_punct_at(1, ':') && !self.is_punct_at(2, ':')) {
            let id = self.ident();
            self.i += 1;
            let e = self.suffixed();
            return (Some(quote!(#id)), e);
        }
        (None, self.suffixed())
    }

    fn bounds(&mut self) -> (Option<TokenStream>, Option<TokenStream>) {
        if !self.eat_punct('<') {
            return (None, None);
        }
        let mut parts: Vec<Vec<TokenTree>> = vec![vec![]];
        while !self.is_punct('>') {
            if self.is_punct(',') {
                self.i += 1;
                parts.push(vec![]);
            } else {
                let t = self.next();
                parts.last_mut().unwrap().push(t);
            }
        }
        self.i += 1;
        let conv = |v: &Vec<TokenTree>| {
            if v.is_empty() {
                None
            } else {
                Some(v.iter().cloned().collect::<TokenStream>())
            }
        };
        if parts.len() == 1 {
            (conv(&parts[0]), conv(&parts[0]))
        } else {
            (conv(&parts[0]), conv(&parts[1]))
        }
    }

    fn suffixed(&mut self) -> Expr {
        let e = self.prefixed();
        if self.eat_punct('?') {
            return Expr::Opt(Box::new(e));
        }
        for (c, default_min) in [('*', None), ('+', Some(quote!(1)))] {
            if self.is_punct(c) {
                self.i += 1;
                let sep = self.eat_punct(c);
                let (min, max) = self.bounds();
                let sep = if sep { Some(Box::new(self.primary())) } else { None };
                return Expr::Repeat { inner: Box::new(e), sep, min: min.or(default_min), max };
            }
        }
        e
    }

    fn prefixed(&mut self) -> Expr {
        if self.eat_punct('$') {
            return Expr::Slice(Box::new(self.primary()));
        }
        if self.eat_punct('!') {
            return Expr::Neg(Box::new(self.primary()));
        }
        if self.eat_punct('&') {
            return Expr::Pos(Box::new(self.primary()));
        }
        self.primary()
    }

    fn primary(&mut self) -> Expr {
        match self.next() {
            TokenTree::Literal(l) => Expr::Lit(l),
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Parenthesis | Delimiter::None => {
                    let mut inner = P::new(g.stream());
                    if inner.t.len() == 1 && inner.is_punct('@') {
                        return Expr::PrecArg(true);
                    }
                    let e = inner.choice();
                    if !inner.done() {
                        panic!("unexpected `{}` in grammar group", inner.next());
                    }
                    e
                }
                Delimiter::Bracket => Expr::Pattern(g.stream()),
                Delimiter::Brace => panic!("unexpected braces in grammar"),
            },
            TokenTree::Punct(p) if p.as_char() == '@' => Expr::PrecArg(false),
            TokenTree::Punct(p) if p.as_char() == '#' => {
                if !self.eat_punct('#') {
                    panic!("expected ##method(...)");
                }
                let id = self.ident();
                let g = self.group_at(0, Delimiter::Parenthesis).expect("arguments of ##method").clone();
                self.i += 1;
                Expr::Method(id, g.stream())
            }
            TokenTree::Ident(id) => {
                let s = id.to_string();
                if self.is_punct('!') && matches!(self.peek_n(1), Some(TokenTree::Group(_))) {
                    let known = matches!(s.as_str(), "quiet" | "expected" | "position" | "precedence");
                    if known {
                        self.i += 1;
                        let g = match self.next() {
                            TokenTree::Group(g) => g,
                            _ => unreachable!(),
                        };
                        return match s.as_str() {
                            "quiet" => Expr::Quiet(Box::new(P::new(g.stream()).choice())),
                            "expected" => Expr::Expected(g.stream()),
                            "position" => Expr::Position,
                            _ => P::new(g.stream()).precedence(),
                        };
                    }
                }
                let mut generics = vec![];
                let save = self.i;
                if self.is_punct('<') {
                    // explicit generic arguments: name<T>(..)
                    let mut depth = 0;
                    let mut ts = vec![];
                    let mut ok = false;
                    while let Some(t) = self.peek().cloned() {
                        self.i += 1;
                        if let TokenTree::Punct(p) = &t {
                            if p.as_char() == '<' {
                                depth += 1;
                            } else if p.as_char() == '>' {
                                depth -= 1;
                            }
                        }
                        ts.push(t);
                        if depth == 0 {
                            ok = self.group_at(0, Delimiter::Parenthesis).is_some();
                            break;
                        }
                    }
                    if ok {
                        generics.push(ts.into_iter().collect());
                    } else {
                        self.i = save;
                    }
                }
                if s == "_" && self.group_at(0, Delimiter::Parenthesis).is_none() {
                    return Expr::Call(id, vec![], vec![]);
                }
                if s == "_" {
                    // `_` may be called with or without parentheses; `_ (..)` is a sequence in this grammar
                    if self.group_at(0, Delimiter::Parenthesis).map_or(false, |g| !g.stream().is_empty()) {
                        return Expr::Call(id, vec![], vec![]);
                    }
                }
                let g = self
                    .group_at(0, Delimiter::Parenthesis)
                    .unwrap_or_else(|| panic!("expected a call of rule `{s}`"))
                    .clone();
                self.i += 1;
                let mut args = vec![];
                let mut inner = P::new(g.stream());
                while !inner.done() {
                    if inner.is_punct('<') {
                        inner.i += 1;
                        let e = inner.choice();
                        if !inner.eat_punct('>') {
                            panic!("expected `>` after a rule argument");
                        }
                        args.push(Arg::Peg(e));
                    } else {
                        let mut ts = vec![];
                        while !inner.done() && !inner.is_punct(',') {
                            ts.push(inner.next());
                        }
                        args.push(Arg::Rust(ts.into_iter().collect()));
                    }
                    inner.eat_punct(',');
                }
                Expr::Call(id, generics, args)
            }
            t => panic!("unexpected `{t}` in grammar"),
        }
    }

    fn precedence(&mut self) -> Expr {
        let mut levels = vec![vec![]];
        while !self.done() {
            if self.is_punct('-') && self.is_punct_at(1, '-') {
                self.i += 2;
                levels.push(vec![]);
                continue;
            }
            let elems = self.elems();
            let g = self.group_at(0, Delimiter::Brace).expect("action of a precedence operator").clone();
            self.i += 1;
            levels.last_mut().unwrap().push(Op { elems, action: g.stream() });
        }
        Expr::Prec(levels)
    }
}

struct Rule {
    public: bool,
    name: Ident,
    generics: Vec<TokenStream>,
    params: Vec<(Ident, ParamTy)>,
    ret: Option<TokenStream>,
    body: Expr,
}

enum ParamTy {
    Rule(TokenStream),
    Rust(TokenStream),
}

struct Cx {
    grammar_args: Vec<Ident>,
    rule_params: HashSet<String>,
}

fn split_commas(ts: TokenStream) -> Vec<Vec<TokenTree>> {
    let mut out: Vec<Vec<TokenTree>> = vec![vec![]];
    let mut depth = 0i32;
    for t in ts {
        if let TokenTree::Punct(p) = &t {
            match p.as_char() {
                '<' => depth += 1,
                '>' => depth -= 1,
                ',' if depth == 0 => {
                    out.push(vec![]);
                    continue;
                }
                _ => {}
            }
        }
        out.last_mut().unwrap().push(t);
    }
    if out.last().unwrap().is_empty() {
        out.pop();
    }
    out
}

fn discard(used: bool, e: TokenStream) -> TokenStream {
    if used {
        e
    } else {
        quote!(match #e { ::peg::RuleResult::Matched(__p, _) => ::peg::RuleResult::Matched(__p, ()), ::peg::RuleResult::Failed => ::peg::RuleResult::Failed })
    }
}

fn gen_elems(cx: &Cx, elems: &[(Option<TokenStream>, Expr)], last: TokenStream) -> TokenStream {
    let mut acc = last;
    for (label, e) in elems.iter().rev() {
        let code = gen(cx, e, label.is_some());
        let pat = label.clone().unwrap_or(quote!(_));
        acc = quote!(match #code {
            ::peg::RuleResult::Matched(__pos, #pat) => #acc,
            ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
        });
    }
    acc
}

fn gen(cx: &Cx, e: &Expr, used: bool) -> TokenStream {
    match e {
        Expr::Lit(l) => {
            let shown = l.to_string();
            quote!(match ::peg::ParseLiteral::parse_string_literal(__input, __pos, #l) {
                ::peg::RuleResult::Matched(__p, __v) => ::peg::RuleResult::Matched(__p, __v),
                ::peg::RuleResult::Failed => { __err.mark_failure(__pos, #shown); ::peg::RuleResult::Failed }
            })
        }
        Expr::Pattern(p) => {
            let shown = format!("[{p}]");
            let val = if used { quote!(__ch) } else { quote!(()) };
            quote!(match ::peg::__parse_elem(__input, __pos) {
                ::peg::RuleResult::Matched(__p, __ch) => match __ch {
                    #p => ::peg::RuleResult::Matched(__p, #val),
                    #[allow(unreachable_patterns)]
                    _ => { __err.mark_failure(__pos, #shown); ::peg::RuleResult::Failed }
                },
                ::peg::RuleResult::Failed => { __err.mark_failure(__pos, #shown); ::peg::RuleResult::Failed }
            })
        }
        Expr::Call(id, generics, args) => {
            let args = args.iter().map(|a| match a {
                Arg::Rust(t) => t.clone(),
                Arg::Peg(e) => {
                    // a rule argument: its value is always produced, the callee decides what it needs
                    let code = gen(cx, e, true);
                    quote!(|__input: &'input str, __err: &mut ::peg::error::ErrorState, __pos: usize| { #code })
                }
            });
            let call = if cx.rule_params.contains(&id.to_string()) {
                quote!(#id(__input, __err, __pos))
            } else {
                let f = format_ident!("__parse_{}", id.to_string());
                let ga = &cx.grammar_args;
                let turbofish = if generics.is_empty() { quote!() } else { quote!(::#(#generics)*) };
                quote!(#f #turbofish (__input, __err, __pos #(, #ga)* #(, #args)*))
            };
            discard(used, call)
        }
        Expr::Method(id, args) => discard(used, quote!(__input.#id(__pos, #args))),
        Expr::Choice(v) => {
            let mut it = v.iter().rev();
            let mut acc = gen(cx, it.next().unwrap(), used);
            for e in it {
                let code = gen(cx, e, used);
                acc = quote!({
                    let __c = #code;
                    match __c {
                        ::peg::RuleResult::Matched(__p, __v) => ::peg::RuleResult::Matched(__p, __v),
                        ::peg::RuleResult::Failed => #acc,
                    }
                });
            }
            acc
        }
        Expr::Seq(elems, action) => {
            let last = match action {
                None => quote!(::peg::RuleResult::Matched(__pos, ())),
                Some((false, code)) => {
                    let inner = quote!(::peg::RuleResult::Matched(__pos, (|| { #code })()));
                    discard(used, inner)
                }
                Some((true, code)) => discard(
                    used,
                    quote!(match (|| { #code })() {
                        Ok(__v) => ::peg::RuleResult::Matched(__pos, __v),
                        Err(__e) => { __err.mark_failure(__pos, __e); ::peg::RuleResult::Failed }
                    }),
                ),
            };
            gen_elems(cx, elems, last)
        }
        Expr::Opt(e) => {
            let code = gen(cx, e, used);
            let (some, none) = if used { (quote!(Some(__v)), quote!(None)) } else { (quote!(__v), quote!(())) };
            quote!(match #code {
                ::peg::RuleResult::Matched(__p, __v) => ::peg::RuleResult::Matched(__p, #some),
                ::peg::RuleResult::Failed => ::peg::RuleResult::Matched(__pos, #none),
            })
        }
        Expr::Repeat { inner, sep, min, max } => {
            let code = gen(cx, inner, used);
            let sep = sep.as_ref().map(|s| {
                let s = gen(cx, s, false);
                quote!(let __pos = if __vals.is_empty() { __pos } else {
                    match #s { ::peg::RuleResult::Matched(__p, _) => __p, ::peg::RuleResult::Failed => break }
                };)
            });
            let max = max.as_ref().map(|m| quote!(if __vals.len() >= (#m) { break; }));
            let val = if used { quote!(__vals) } else { quote!(()) };
            let res = match min {
                Some(m) => quote!(if __vals.len() >= (#m) { ::peg::RuleResult::Matched(__rpos, #val) } else { ::peg::RuleResult::Failed }),
                None => quote!(::peg::RuleResult::Matched(__rpos, #val)),
            };
            quote!({
                let mut __rpos = __pos;
                let mut __vals = ::std::vec::Vec::new();
                loop {
                    let __pos = __rpos;
                    #max
                    #sep
                    let __r = #code;
                    match __r {
                        ::peg::RuleResult::Matched(__p, __v) => { __rpos = __p; __vals.push(__v); }
                        ::peg::RuleResult::Failed => break,
                    }
                }
                #res
            })
        }
        Expr::Pos(e) => {
            let code = gen(cx, e, used);
            quote!({
                __err.suppress_fail += 1;
                let __r = #code;
                __err.suppress_fail -= 1;
                match __r { ::peg::RuleResult::Matched(_, __v) => ::peg::RuleResult::Matched(__pos, __v), ::peg::RuleResult::Failed => ::peg::RuleResult::Failed }
            })
        }
        Expr::Neg(e) => {
            let code = gen(cx, e, false);
            quote!({
                __err.suppress_fail += 1;
                let __r = #code;
                __err.suppress_fail -= 1;
                match __r { ::peg::RuleResult::Failed => ::peg::RuleResult::Matched(__pos, ()), ::peg::RuleResult::Matched(..) => ::peg::RuleResult::Failed }
            })
        }
        Expr::Slice(e) => {
            let code = gen(cx, e, false);
            let val = if used { quote!(&__input[__pos..__p]) } else { quote!(()) };
            quote!(match #code {
                ::peg::RuleResult::Matched(__p, _) => ::peg::RuleResult::Matched(__p, #val),
                ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
            })
        }
        Expr::Quiet(e) => {
            let code = gen(cx, e, used);
            quote!({
                __err.suppress_fail += 1;
                let __r = #code;
                __err.suppress_fail -= 1;
                __r
            })
        }
        Expr::Expected(s) => quote!({ __err.mark_failure(__pos, #s); ::peg::RuleResult::Failed }),
        Expr::Position => {
            let val = if used { quote!(__pos) } else { quote!(()) };
            quote!(::peg::RuleResult::Matched(__pos, #val))
        }
        Expr::PrecArg(_) => panic!("`@` outside of precedence!"),
        Expr::Prec(levels) => gen_prec(cx, levels, used),
    }
}

fn gen_prec(cx: &Cx, levels: &[Vec<Op>], used: bool) -> TokenStream {
    let is_arg = |e: Option<&(Option<TokenStream>, Expr)>| match e {
        Some((l, Expr::PrecArg(p))) => Some((l.clone().unwrap_or(quote!(_)), *p)),
        _ => None,
    };
    let mut pre = vec![];
    let mut post_levels = vec![];
    for (prec, level) in levels.iter().enumerate() {
        let prec = prec as i32;
        let mut post = vec![];
        for op in level {
            let n = op.elems.len();
            let left = is_arg(op.elems.first());
            let right = if n > 1 { is_arg(op.elems.last()) } else { None };
            let mid = &op.elems[usize::from(left.is_some())..n - usize::from(right.is_some())];
            let action = &op.action;
            match (left, right) {
                (None, None) => {
                    let code = gen_elems(cx, mid, quote!(::peg::RuleResult::Matched(__pos, (|| { #action })())));
                    pre.push(code);
                }
                (None, Some((r, _))) => {
                    let last = quote!(match __rec.call(__input, __err, __pos, #prec) {
                        ::peg::RuleResult::Matched(__pos, #r) => ::peg::RuleResult::Matched(__pos, (|| { #action })()),
                        ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                    });
                    pre.push(gen_elems(cx, mid, last));
                }
                (Some((l, _)), None) => {
                    let labels: Vec<_> = mid.iter().filter_map(|(l, _)| l.clone()).collect();
                    let code = gen_elems(cx, mid, quote!(::peg::RuleResult::Matched(__pos, (#(#labels,)*))));
                    post.push(quote!(
                        if let ::peg::RuleResult::Matched(__pos, (#(#labels,)*)) = #code {
                            let #l = __left;
                            __left = (|| { #action })();
                            __rpos = __pos;
                            continue;
                        }
                    ));
                }
                (Some((l, lassoc)), Some((r, _))) => {
                    let new_prec = if lassoc { prec + 1 } else { prec };
                    let labels: Vec<_> = mid.iter().filter_map(|(l, _)| l.clone()).collect();
                    let code = gen_elems(
                        cx,
                        mid,
                        quote!(match __rec.call(__input, __err, __pos, #new_prec) {
                            ::peg::RuleResult::Matched(__pos, __r) => ::peg::RuleResult::Matched(__pos, (#(#labels,)* __r,)),
                            ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                        }),
                    );
                    post.push(quote!(
                        if let ::peg::RuleResult::Matched(__pos, (#(#labels,)* #r,)) = #code {
                            let #l = __left;
                            __left = (|| { #action })();
                            __rpos = __pos;
                            continue;
                        }
                    ));
                }
            }
        }
        if !post.is_empty() {
            post_levels.push(quote!(if __min_prec <= #prec { #(#post)* }));
        }
    }
    let mut acc = quote!(::peg::RuleResult::Failed);
    for p in pre.iter().rev() {
        acc = quote!({
            let __c = #p;
            match __c {
                ::peg::RuleResult::Matched(__p, __v) => ::peg::RuleResult::Matched(__p, __v),
                ::peg::RuleResult::Failed => #acc,
            }
        });
    }
    // recursion through a helper object, because the operators close over the grammar arguments
    let call = quote!({
        struct __Rec<'__a, '__i, __T>(&'__a dyn Fn(&__Rec<'_, '__i, __T>, &'__i str, &mut ::peg::error::ErrorState, usize, i32) -> ::peg::RuleResult<__T>);
        impl<'__a, '__i, __T> __Rec<'__a, '__i, __T> {
            fn call(&self, i: &'__i str, e: &mut ::peg::error::ErrorState, p: usize, m: i32) -> ::peg::RuleResult<__T> {
                (self.0)(self, i, e, p, m)
            }
        }
        let __f = |__rec: &__Rec<'_, 'input, _>, __input: &'input str, __err: &mut ::peg::error::ErrorState, __pos: usize, __min_prec: i32| {
            let __init = #acc;
            match __init {
                ::peg::RuleResult::Matched(mut __rpos, mut __left) => {
                    #[allow(clippy::never_loop)]
                    loop {
                        let __pos = __rpos;
                        #(#post_levels)*
                        break;
                    }
                    ::peg::RuleResult::Matched(__rpos, __left)
                }
                ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
            }
        };
        let __rec = __Rec(&__f);
        __rec.call(__input, __err, __pos, 0)
    });
    discard(used, call)
}

#[proc_macro]
pub fn parser(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let mut p = P::new(TokenStream::from(input));
    while p.is_punct('#') {
        p.i += 2;
    }
    let public = if p.is_ident_at(0, "pub") {
        p.i += 1;
        if p.group_at(0, Delimiter::Parenthesis).is_some() {
            p.i += 1;
            quote!(pub(crate))
        } else {
            quote!(pub)
        }
    } else {
        quote!()
    };
    if p.ident() != "grammar" {
        panic!("expected `grammar`");
    }
    let gname = p.ident();
    let gargs_group = p.group_at(0, Delimiter::Parenthesis).expect("grammar arguments").clone();
    p.i += 1;
    let mut grammar_args = vec![];
    let mut grammar_params = vec![];
    for a in split_commas(gargs_group.stream()) {
        let id = match &a[0] {
            TokenTree::Ident(i) => i.clone(),
            _ => panic!("grammar argument"),
        };
        grammar_args.push(id);
        grammar_params.push(a.into_iter().collect::<TokenStream>());
    }
    if p.ident() != "for" {
        panic!("expected `for`");
    }
    while p.group_at(0, Delimiter::Brace).is_none() {
        p.i += 1;
    }
    let body = p.group_at(0, Delimiter::Brace).unwrap().clone();
    let mut p = P::new(body.stream());
    let mut uses = vec![];
    let mut rules = vec![];
    while !p.done() {
        if p.eat_punct(';') {
            continue;
        }
        if p.is_punct('#') {
            p.i += 2;
            continue;
        }
        if p.is_ident_at(0, "use") {
            let mut ts = vec![];
            loop {
                let t = p.next();
                let end = matches!(&t, TokenTree::Punct(q) if q.as_char() == ';');
                ts.push(t);
                if end {
                    break;
                }
            }
            uses.push(ts.into_iter().collect::<TokenStream>());
            continue;
        }
        let mut public = false;
        if p.is_ident_at(0, "pub") {
            p.i += 1;
            if p.group_at(0, Delimiter::Parenthesis).is_some() {
                p.i += 1;
            }
            public = true;
        }
        if p.ident() != "rule" {
            panic!("expected `rule`");
        }
        let name = p.ident();
        let mut generics = vec![];
        if p.eat_punct('<') {
            let mut ts = vec![];
            while !p.is_punct('>') {
                ts.push(p.next());
            }
            p.i += 1;
            generics = split_commas(ts.into_iter().collect()).into_iter().map(|v| v.into_iter().collect()).collect();
        }
        let g = p.group_at(0, Delimiter::Parenthesis).expect("rule parameters").clone();
        p.i += 1;
        let params = split_commas(g.stream())
            .into_iter()
            .map(|v| {
                let id = match &v[0] {
                    TokenTree::Ident(i) => i.clone(),
                    _ => panic!("rule parameter"),
                };
                let ty = &v[2..];
                if matches!(&ty[0], TokenTree::Ident(i) if i == "rule") {
                    (id, ParamTy::Rule(ty[2..ty.len() - 1].iter().cloned().collect()))
                } else {
                    (id, ParamTy::Rust(ty.iter().cloned().collect()))
                }
            })
            .collect();
        let mut ret = None;
        if p.is_punct('-') && p.is_punct_at(1, '>') {
            p.i += 2;
            let mut ts = vec![];
            let mut depth = 0;
            loop {
                if depth == 0 && p.is_punct('=') {
                    break;
                }
                if p.is_punct('<') {
                    depth += 1;
                }
                if p.is_punct('>') {
                    depth -= 1;
                }
                ts.push(p.next());
            }
            ret = Some(ts.into_iter().collect());
        }
        if !p.eat_punct('=') {
            panic!("expected `=` in rule `{name}`");
        }
        let body = p.choice();
        rules.push(Rule { public, name, generics, params, ret, body });
    }

    let mut out = TokenStream::new();
    for r in &rules {
        let cx = Cx {
            grammar_args: grammar_args.clone(),
            rule_params: r
                .params
                .iter()
                .filter(|(_, t)| matches!(t, ParamTy::Rule(_)))
                .map(|(i, _)| i.to_string())
                .collect(),
        };
        let f = format_ident!("__parse_{}", r.name.to_string());
        let code = gen(&cx, &r.body, r.ret.is_some());
        let ret = r.ret.clone().unwrap_or(quote!(()));
        let generics = &r.generics;
        let params = r.params.iter().map(|(id, t)| match t {
            ParamTy::Rust(t) => quote!(#id: #t),
            ParamTy::Rule(t) => quote!(#id: impl Fn(&'input str, &mut ::peg::error::ErrorState, usize) -> ::peg::RuleResult<#t>),
        });
        out.extend(quote!(
            fn #f<'input #(, #generics)*>(__input: &'input str, __err: &mut ::peg::error::ErrorState, __pos: usize #(, #grammar_params)* #(, #params)*) -> ::peg::RuleResult<#ret> {
                #code
            }
        ));
        if r.public {
            let name = &r.name;
            out.extend(quote!(
                pub fn #name<'input>(__input: &'input str #(, #grammar_params)*) -> ::std::result::Result<#ret, ::peg::error::ParseError<::peg::str::LineCol>> {
                    let mut __err = ::peg::error::ErrorState::new();
                    match #f(__input, &mut __err, 0 #(, #grammar_args)*) {
                        ::peg::RuleResult::Matched(__pos, __v) => {
                            if __pos == __input.len() { return Ok(__v); }
                            __err.mark_failure(__pos, "EOF");
                        }
                        ::peg::RuleResult::Failed => {}
                    }
                    __err.suppress_fail = 0;
                    __err.reparsing = true;
                    match #f(__input, &mut __err, 0 #(, #grammar_args)*) {
                        ::peg::RuleResult::Matched(__pos, _) => __err.mark_failure(__pos, "EOF"),
                        ::peg::RuleResult::Failed => {}
                    }
                    Err(__err.into_parse_error(__input))
                }
            ));
        }
    }
    quote!(
        #public mod #gname {
            #![allow(unused, non_snake_case, warnings, clippy::all)]
            use super::*;
            #(#uses)*
            #out
        }
    )
    .into()
}
