mod apply;
mod checks;
mod enums;
mod model;
mod runtime;
mod sys;
fn main() {
	engine::main_with(checks::CHECKS)
}
