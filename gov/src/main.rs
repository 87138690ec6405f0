mod c24;

fn main() {
    c24::install();
    nttmc::cli::main(vec![("C24", c24::c24)]);
}
