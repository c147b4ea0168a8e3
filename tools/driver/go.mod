module driver

go 1.20
