module github.com/gocraft/health

go 1.23
