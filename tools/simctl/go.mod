module simctl

go 1.21
