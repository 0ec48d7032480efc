module pgregory.net/rapid

go 1.23
