//! Enough of an HTML reader for `a[href*='..']`.
pub struct Html(Vec<Vec<(String, String)>>);
/// `a`, `a[href]` and `a[href*='..']` with `^=`, `$=` or `=` in place of `*=` and either quote.
pub struct Selector { op: char, text: String }
#[derive(Debug)]
pub struct SelectorErrorKind;
impl Selector {
    pub fn parse(s: &str) -> Result<Self, SelectorErrorKind> {
        let s = s.trim();
        if s == "a" { return Ok(Self { op: 'a', text: String::new() }) }
        let n = s.strip_prefix("a[href").and_then(|s| s.strip_suffix(']')).ok_or(SelectorErrorKind)?;
        if n.is_empty() { return Ok(Self { op: '*', text: String::new() }) }
        let (op, n) = n.split_once('=').ok_or(SelectorErrorKind)?;
        let n = ['\'', '"'].iter().find_map(|q| n.strip_prefix(*q)?.strip_suffix(*q)).ok_or(SelectorErrorKind)?;
        let op = match op { "*" => '*', "^" => '^', "$" => '$', "" => '=', _ => return Err(SelectorErrorKind) };
        Ok(Self { op, text: n.to_string() })
    }
    fn matches(&self, attrs: &[(String, String)]) -> bool {
        let t = self.text.as_str();
        self.op == 'a' || attrs.iter().any(|(k, v)| k == "href" && match self.op { '*' => v.contains(t), '^' => v.starts_with(t), '$' => v.ends_with(t), _ => v == t })
    }
}
pub struct ElementRef<'a>(&'a Vec<(String, String)>);
pub struct Element<'a>(&'a Vec<(String, String)>);
impl<'a> ElementRef<'a> { pub fn value(&self) -> Element<'a> { Element(self.0) } }
impl<'a> Element<'a> { pub fn attr(&self, n: &str) -> Option<&'a str> { self.0.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str()) } }
impl Html {
    pub fn parse_document(s: &str) -> Self {
        let mut out = vec![];
        let mut rest = s;
        while let Some(i) = rest.find("<a ") {
            rest = &rest[i + 3..];
            let end = rest.find('>').unwrap_or(rest.len());
            let mut attrs = vec![];
            let mut t = &rest[..end];
            while let Some(e) = t.find('=') {
                let k = t[..e].trim().to_string();
                let v = t[e + 1..].trim_start();
                let q = v.chars().next().unwrap_or(' ');
                if q == '"' || q == '\'' {
                    let v = &v[1..];
                    let j = v.find(q).unwrap_or(v.len());
                    attrs.push((k, v[..j].to_string()));
                    t = &v[(j + 1).min(v.len())..];
                } else {
                    let j = v.find(' ').unwrap_or(v.len());
                    attrs.push((k, v[..j].to_string()));
                    t = &v[j..];
                }
            }
            out.push(attrs);
            rest = &rest[end..];
        }
        Html(out)
    }
    pub fn select<'a>(&'a self, s: &'a Selector) -> impl Iterator<Item = ElementRef<'a>> {
        self.0.iter().filter(|a| s.matches(a)).map(ElementRef)
    }
}
