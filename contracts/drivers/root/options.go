package krypto431

// Drivers: they apply the option that the real function returns; their contracts state what the option does.

func verifWithPFK(k *Krypto431, key *[]byte)        { WithPFK(key)(k) }
func verifWithPFKString(k *Krypto431, key string)   { WithPFKString(key)(k) }
func verifWithSalt(k *Krypto431, salt *[]byte)      { WithSalt(salt)(k) }
func verifWithSaltString(k *Krypto431, salt string) { WithSaltString(salt)(k) }
