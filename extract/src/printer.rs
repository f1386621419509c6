//! Prints a token stream with line breaks (no rustfmt needed).
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: TokenStream) -> String {
    let mut p = P {
        o: String::new(),
        ind: 0,
        bol: true,
        joint: false,
    };
    p.stream(ts);
    p.o
}

struct P {
    o: String,
    ind: usize,
    bol: bool,
    joint: bool,
}

impl P {
    fn nl(&mut self) {
        if !self.bol {
            self.o.push('\n');
            self.bol = true;
        }
        self.joint = false;
    }
    fn word(&mut self, w: &str) {
        if self.bol {
            for _ in 0..self.ind {
                self.o.push_str("    ");
            }
            self.bol = false;
        } else if !self.joint {
            self.o.push(' ');
        }
        self.o.push_str(w);
        self.joint = false;
    }
    fn stream(&mut self, ts: TokenStream) {
        for t in ts {
            match t {
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        self.word("{");
                        self.nl();
                        self.ind += 1;
                        self.stream(g.stream());
                        self.nl();
                        self.ind -= 1;
                        self.word("}");
                        self.nl();
                    }
                    Delimiter::Parenthesis => {
                        self.word("(");
                        self.stream(g.stream());
                        self.word(")");
                    }
                    Delimiter::Bracket => {
                        self.word("[");
                        self.stream(g.stream());
                        self.word("]");
                    }
                    Delimiter::None => self.stream(g.stream()),
                },
                TokenTree::Ident(i) => self.word(&i.to_string()),
                TokenTree::Literal(l) => self.word(&l.to_string()),
                TokenTree::Punct(p) => {
                    self.word(&p.as_char().to_string());
                    if p.spacing() == Spacing::Joint || p.as_char() == '\'' {
                        self.joint = true;
                    }
                    if p.as_char() == ';' {
                        self.nl();
                    }
                }
            }
        }
    }
}
