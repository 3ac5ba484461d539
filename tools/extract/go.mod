module extract

go 1.21
