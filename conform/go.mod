module conform

go 1.24
