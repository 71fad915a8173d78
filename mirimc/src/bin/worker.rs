//! worker JOB quick|thorough CASES
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    mirimc::explore::job_perform(a[1].parse().unwrap(), a[2] == "thorough", &a[3]);
}
