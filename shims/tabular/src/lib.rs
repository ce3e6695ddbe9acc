//! Tables, with tabs between their cells.  (tabular pads them with blanks.)
use std::fmt;
pub struct Table { cols: usize, rows: Vec<Row> }
#[derive(Default)]
pub struct Row(Vec<String>);
impl Row {
    pub fn new() -> Self { Row::default() }
    pub fn add_cell<T: fmt::Display>(&mut self, x: T) -> &mut Self { self.0.push(x.to_string()); self }
    pub fn with_cell<T: fmt::Display>(mut self, x: T) -> Self { self.0.push(x.to_string()); self }
}
impl Table {
    pub fn new(spec: &str) -> Self { Table { cols: spec.matches("{:<}").count(), rows: vec![] } }
    pub fn add_row(&mut self, r: Row) -> &mut Self {
        assert_eq!(r.0.len(), self.cols, "Number of columns in table and row don't match");
        self.rows.push(r);
        self
    }
}
impl fmt::Display for Table {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for r in &self.rows { writeln!(f, "{}", r.0.join("\t"))? }
        Ok(())
    }
}
