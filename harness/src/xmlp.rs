//! A strict, small, non-validating XML 1.0 parser: the independent oracle for written documents.
//! No DTDs (a document type declaration is reported as an error), no namespaces.

use crate::gen::xml_char_ok;

#[derive(Debug, Clone, PartialEq, Default)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub children: Vec<El>,
    /// all the character data directly in here
    pub text: String,
}

impl El {
    pub fn attr(&self, k: &str) -> Option<&str> {
        self.attrs
            .iter()
            .find(|(n, _)| n == k)
            .map(|(_, v)| v.as_str())
    }
}

struct P<'a> {
    s: &'a str,
    i: usize,
}

type R<T> = Result<T, String>;

fn name_start(c: char) -> bool {
    matches!(c, ':' | '_' | 'A'..='Z' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}'
        | '\u{F8}'..='\u{2FF}' | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}'
        | '\u{2070}'..='\u{218F}' | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}'
        | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}' | '\u{10000}'..='\u{EFFFF}')
}
fn name_char(c: char) -> bool {
    name_start(c)
        || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
}

impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn err<T>(&self, m: &str) -> R<T> {
        let mut a = self.i.saturating_sub(30);
        while !self.s.is_char_boundary(a) {
            a -= 1;
        }
        let mut b = (self.i + 30).min(self.s.len());
        while !self.s.is_char_boundary(b) {
            b += 1;
        }
        Err(format!(
            "not well-formed XML at byte {}: {} (near {:?})",
            self.i,
            m,
            &self.s[a..b]
        ))
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.rest().starts_with(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            self.err(&format!("expected {:?}", t))
        }
    }
    fn ws(&mut self) -> bool {
        let st = self.i;
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1;
        }
        self.i > st
    }
    fn name(&mut self) -> R<String> {
        let st = self.i;
        match self.peek() {
            Some(c) if name_start(c) => self.i += c.len_utf8(),
            _ => return self.err("expected a name"),
        }
        while let Some(c) = self.peek() {
            if !name_char(c) {
                break;
            }
            self.i += c.len_utf8();
        }
        Ok(self.s[st..self.i].to_string())
    }
    fn reference(&mut self) -> R<char> {
        self.expect("&")?;
        let end = match self.rest().find(';') {
            Some(e) => e,
            None => return self.err("reference without ;"),
        };
        let body = &self.rest()[..end];
        let c = match body {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = if let Some(h) = body.strip_prefix("#x") {
                    if h.is_empty() || !h.bytes().all(|b| b.is_ascii_hexdigit()) {
                        return self.err("bad character reference");
                    }
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = body.strip_prefix('#') {
                    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
                        return self.err("bad character reference");
                    }
                    d.parse().ok()
                } else {
                    return self.err("undefined entity");
                };
                match n.and_then(char::from_u32) {
                    Some(c) if xml_char_ok(c) => c,
                    _ => return self.err("character reference to no character"),
                }
            }
        };
        self.i += end + 1;
        Ok(c)
    }
    fn attr_value(&mut self) -> R<String> {
        let q = match self.peek() {
            Some(q @ ('"' | '\'')) => q,
            _ => return self.err("expected a quote"),
        };
        self.i += 1;
        let mut v = String::new();
        loop {
            match self.peek() {
                None => return self.err("end of document in an attribute value"),
                Some(c) if c == q => {
                    self.i += 1;
                    return Ok(v);
                }
                Some('<') => return self.err("< in an attribute value"),
                Some('&') => v.push(self.reference()?),
                Some('\r') => {
                    // end-of-line handling, then attribute value normalisation
                    self.i += 1;
                    self.eat("\n");
                    v.push(' ');
                }
                Some('\t' | '\n') => {
                    self.i += 1;
                    v.push(' ');
                }
                Some(c) if xml_char_ok(c) => {
                    self.i += c.len_utf8();
                    v.push(c);
                }
                Some(_) => return self.err("not an XML character"),
            }
        }
    }
    fn comment(&mut self) -> R<()> {
        self.expect("<!--")?;
        let e = match self.rest().find("--") {
            Some(e) => e,
            None => return self.err("comment without end"),
        };
        let body = &self.rest()[..e];
        if !body.chars().all(xml_char_ok) {
            return self.err("not an XML character");
        }
        self.i += e;
        self.expect("-->")
    }
    fn pi(&mut self) -> R<()> {
        self.expect("<?")?;
        let n = self.name()?;
        if n.eq_ignore_ascii_case("xml") {
            return self.err("XML declaration in the wrong place");
        }
        match self.rest().find("?>") {
            Some(e) => {
                self.i += e + 2;
                Ok(())
            }
            None => self.err("processing instruction without end"),
        }
    }
    fn misc(&mut self) -> R<()> {
        loop {
            self.ws();
            if self.rest().starts_with("<!--") {
                self.comment()?;
            } else if self.rest().starts_with("<?") {
                self.pi()?;
            } else {
                return Ok(());
            }
        }
    }
    fn attrs(&mut self) -> R<Vec<(String, String)>> {
        let mut attrs: Vec<(String, String)> = vec![];
        loop {
            let ws = self.ws();
            match self.peek() {
                Some('>' | '/' | '?') | None => return Ok(attrs),
                _ => {}
            }
            if !ws {
                return self.err("expected white space before an attribute");
            }
            let n = self.name()?;
            self.ws();
            self.expect("=")?;
            self.ws();
            let v = self.attr_value()?;
            if attrs.iter().any(|(x, _)| *x == n) {
                return self.err("duplicate attribute");
            }
            attrs.push((n, v));
        }
    }
    fn document(&mut self) -> R<El> {
        self.eat("\u{feff}");
        if self.rest().starts_with("<?xml") {
            self.i += 5;
            let a = self.attrs()?;
            self.expect("?>")?;
            let names: Vec<&str> = a.iter().map(|x| x.0.as_str()).collect();
            if !matches!(
                names[..],
                ["version"] | ["version", "encoding"] | ["version", "standalone"]
                    | ["version", "encoding", "standalone"]
            ) || a[0].1 != "1.0"
                || a.iter()
                    .any(|(n, v)| n == "encoding" && !v.eq_ignore_ascii_case("utf-8"))
            {
                return self.err("bad XML declaration");
            }
        }
        self.misc()?;
        // elements, without recursion
        let mut stack: Vec<El> = vec![];
        loop {
            if stack.is_empty() {
                if self.peek() != Some('<')
                    || self.rest().starts_with("</")
                    || self.rest().starts_with("<![CDATA[")
                {
                    return self.err("expected the root element");
                }
            }
            match self.peek() {
                None => return self.err("end of document in an element"),
                Some('<') => {
                    if self.rest().starts_with("<!--") {
                        self.comment()?;
                    } else if self.rest().starts_with("<![CDATA[") {
                        self.i += 9;
                        let e = match self.rest().find("]]>") {
                            Some(e) => e,
                            None => return self.err("CDATA without end"),
                        };
                        let t = self.rest()[..e].to_string();
                        if !t.chars().all(xml_char_ok) {
                            return self.err("not an XML character");
                        }
                        self.i += e + 3;
                        stack.last_mut().unwrap().text.push_str(&t);
                    } else if self.rest().starts_with("<?") {
                        self.pi()?;
                    } else if self.eat("</") {
                        let n = self.name()?;
                        self.ws();
                        self.expect(">")?;
                        let el = stack.pop().unwrap();
                        if el.name != n {
                            return self.err(&format!("</{}> closes <{}>", n, el.name));
                        }
                        match stack.last_mut() {
                            Some(p) => p.children.push(el),
                            None => {
                                self.misc()?;
                                if self.i != self.s.len() {
                                    return self.err("content after the root element");
                                }
                                return Ok(el);
                            }
                        }
                    } else {
                        self.expect("<")?;
                        let name = self.name()?;
                        let attrs = self.attrs()?;
                        let el = El {
                            name,
                            attrs,
                            ..El::default()
                        };
                        if self.eat("/>") {
                            match stack.last_mut() {
                                Some(p) => p.children.push(el),
                                None => {
                                    self.misc()?;
                                    if self.i != self.s.len() {
                                        return self.err("content after the root element");
                                    }
                                    return Ok(el);
                                }
                            }
                        } else {
                            self.expect(">")?;
                            stack.push(el);
                        }
                    }
                }
                Some('&') => {
                    let c = self.reference()?;
                    stack.last_mut().unwrap().text.push(c);
                }
                Some(c) => {
                    if !xml_char_ok(c) {
                        return self.err("not an XML character");
                    }
                    if self.rest().starts_with("]]>") {
                        return self.err("]]> in character data");
                    }
                    self.i += c.len_utf8();
                    if c == '\r' {
                        self.eat("\n");
                        stack.last_mut().unwrap().text.push('\n');
                    } else {
                        stack.last_mut().unwrap().text.push(c);
                    }
                }
            }
        }
    }
}

pub fn parse(bytes: &[u8]) -> Result<El, String> {
    let s = std::str::from_utf8(bytes).map_err(|e| format!("not UTF-8: {}", e))?;
    P { s, i: 0 }.document()
}

pub fn self_test() {
    let ok = |s: &str| assert!(parse(s.as_bytes()).is_ok(), "{s}: {:?}", parse(s.as_bytes()));
    let bad = |s: &str| assert!(parse(s.as_bytes()).is_err(), "{s}");
    ok("<a/>");
    ok("<?xml version='1.0' encoding=\"UTF-8\"?>\n<!-- x --><a b='1' c=\"2\"><b/>x&amp;&#10;</a>\n");
    bad("<a></b>");
    bad("<a/><b/>");
    bad("<a></a></a>");
    bad("<a b='1' b='2'/>");
    bad("<a b='<'/>");
    bad("<a b='&x;'/>");
    bad("<a b='&'/>");
    bad("<a b='1'c='2'/>");
    bad("<a b=1/>");
    bad("<a b='\u{1}'/>");
    bad("<a b='&#1;'/>");
    bad("<a>]]></a>");
    bad("<a><!-- -- --></a>");
    bad("<a>");
    bad("");
    let e = parse(b"<a b='x\n\ty&#10;&quot;&#x41;\r\nz'/>").unwrap();
    assert_eq!(e.attr("b"), Some("x  y\n\"A z"));
}
