package alpha

func live_test() {}
