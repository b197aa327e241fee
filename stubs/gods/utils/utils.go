// Package utils is an offline stand-in for github.com/emirpasic/gods/utils.
package utils

// Comparator returns a negative, zero or positive number for a < b, a == b, a > b.
type Comparator func(a, b interface{}) int

func Int64Comparator(a, b interface{}) int {
	x, y := a.(int64), b.(int64)
	switch {
	case x > y:
		return 1
	case x < y:
		return -1
	}
	return 0
}

func UInt64Comparator(a, b interface{}) int {
	x, y := a.(uint64), b.(uint64)
	switch {
	case x > y:
		return 1
	case x < y:
		return -1
	}
	return 0
}

func IntComparator(a, b interface{}) int { return a.(int) - b.(int) }

func StringComparator(a, b interface{}) int {
	x, y := a.(string), b.(string)
	switch {
	case x > y:
		return 1
	case x < y:
		return -1
	}
	return 0
}
