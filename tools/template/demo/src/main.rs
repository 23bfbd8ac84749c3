mod common; use common::*; fn main(){ serve(&[prod(1,"plakat","","")]); }
