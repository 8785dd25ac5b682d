mod checks;
mod node;
mod sys;
fn main() {
	engine::main_with(checks::CHECKS)
}
