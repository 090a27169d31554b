// Names a program may have of its own.
struct Value;
struct BTreeMap;
fn to_value(_: ()) {}
macro_rules! vec {
    ($($t:tt)*) => {
        compile_error!("not this one")
    };
}
macro_rules! _value {
    ($($t:tt)*) => {
        compile_error!("not this one")
    };
}
