use std::{borrow::Cow, collections::HashMap, fmt};
pub use validator_derive::Validate;

#[derive(Clone, Debug, PartialEq)]
pub struct ValidationError {
    pub code: Cow<'static, str>,
    pub message: Option<Cow<'static, str>>,
}
impl ValidationError {
    pub fn new(code: &'static str) -> Self {
        Self { code: code.into(), message: None }
    }
}
impl fmt::Display for ValidationError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Validation error: {}", self.code)
    }
}
impl std::error::Error for ValidationError {}

#[derive(Clone, Debug, PartialEq)]
pub enum ValidationErrorsKind {
    Field(Vec<ValidationError>),
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct ValidationErrors(pub HashMap<Cow<'static, str>, ValidationErrorsKind>);
impl ValidationErrors {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn add(&mut self, field: &'static str, e: ValidationError) {
        let ValidationErrorsKind::Field(v) = self
            .0
            .entry(field.into())
            .or_insert_with(|| ValidationErrorsKind::Field(vec![]));
        v.push(e);
    }
    pub fn has_error(r: &Result<(), ValidationErrors>, field: &str) -> bool {
        matches!(r, Err(e) if e.0.contains_key(field))
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn field_errors(&self) -> HashMap<Cow<'static, str>, &Vec<ValidationError>> {
        self.0
            .iter()
            .map(|(k, ValidationErrorsKind::Field(v))| (k.clone(), v))
            .collect()
    }
}
impl fmt::Display for ValidationErrors {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl std::error::Error for ValidationErrors {}
pub trait Validate {
    fn validate(&self) -> Result<(), ValidationErrors>;
}
