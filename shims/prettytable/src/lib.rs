//! Tables, with tabs between their cells
pub struct Row(pub Vec<String>);
#[macro_export]
macro_rules! row {
    ($($x:expr),* $(,)?) => { $crate::Row(vec![$($x.to_string()),*]) }
}
#[derive(Default)]
pub struct Table { titles: Option<Row>, rows: Vec<Row> }
impl Table {
    pub fn new() -> Self { Table::default() }
    pub fn set_format(&mut self, _: format::TableFormat) {}
    pub fn set_titles(&mut self, r: Row) { self.titles = Some(r) }
    pub fn add_row(&mut self, r: Row) { self.rows.push(r) }
    pub fn printstd(&self) -> usize {
        for r in self.titles.iter().chain(&self.rows) { clap::out(format_args!("{}\n", r.0.join("\t"))) }
        self.rows.len()
    }
}
pub mod format {
    #[derive(Clone, Copy)]
    pub struct TableFormat;
    pub mod consts { pub static FORMAT_CLEAN: &super::TableFormat = &super::TableFormat; }
}
