module gen
go 1.27
