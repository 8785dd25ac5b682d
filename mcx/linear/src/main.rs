mod checks;
mod sys;
fn main() {
	engine::main_with(checks::CHECKS)
}
