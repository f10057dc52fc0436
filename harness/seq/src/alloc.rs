//! Allocator programs on the CPU reference runtime.
mod cpu;
mod driver;

fn main() {
    driver::main::<cpu::Cpu>();
}
