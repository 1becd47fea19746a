package bankinfo

// ZZEntries is the bank database.
func ZZEntries() []BankInfo { return data }
