package utils

func ToAnyList[E any](list []E) []any {
	ret := make([]any, len(list))
	for i := range list {
		ret[i] = list[i]
	}
	return ret
}
