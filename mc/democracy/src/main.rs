mod checks;
mod model;
mod runtime;
mod sys;
fn main() {
	engine::main_with(checks::CHECKS)
}
