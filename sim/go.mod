module vsim

go 1.20
