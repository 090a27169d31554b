//! What has to be usable from several threads (C19): this crate compiles if and
//! only if it is. Every state of the compiler's search for the auto traits is
//! visited by type checking; nothing is run.

fn both<T: Send + Sync>() {}
fn moves<T: 'static>() {}

pub fn all<'a>() {
    both::<upon::Engine<'a>>();
    both::<upon::Template<'a>>();
    both::<upon::TemplateRef<'a>>();
    both::<upon::Syntax<'a>>();
    both::<upon::SyntaxBuilder<'a>>();
    both::<upon::Value>();
    both::<upon::Error>();
    both::<upon::fmt::Error>();
    both::<upon::EngineFn>();
    both::<upon::ValueMember<'a>>();
    both::<upon::Result<()>>();
    // A template owns what it was compiled from.
    moves::<upon::Template<'static>>();
}

/// One engine for scoped threads, also with borrowed names and sources.
pub fn shared(engine: &upon::Engine<'_>, value: &upon::Value) {
    std::thread::scope(|s| {
        let t = engine.compile("x");
        s.spawn(move || t.map(|t| t.render_from(engine, value).to_string()));
        s.spawn(move || engine.get_template("x").map(|t| t.render_from(value).to_string()));
    });
}
