package coin

import (
	"fmt"
	"strconv"
	"time"

	"github.com/mkobetic/coin/rex"
)

var spec_DateFormat = "2006/01/02"

var spec_MonthFormat = "2006/01"

var spec_YearFormat = "2006"

var spec_ymd = rex.MustCompile(`` +
	`((?P<ymd>((?P<ymdy>\d\d(\d\d)?)/)?(?P<ymdm>\d{1,2})/(?P<ymdd>\d{1,2}))|` +
	`(?P<ym>(?P<ymy>\d{4})(/(?P<ymm>\d{1,2}))?))`)

var spec_offset = rex.MustCompile(`(?P<offset>[+-]\d+[dwmy])`)

var spec_DateREX = rex.MustCompile(`(?P<date>%s?%s?)`, spec_ymd, spec_offset)

func spec_init_date() {
	Year, Month, Day = time.Now().Date()
}

func spec_WithYear(year int, f func()) {
	was := Year
	Year = year
	defer func() { Year = was }()
	f()
}

func spec_WithDate(date string, f func()) {
	Y, M, D := Year, Month, Day
	Year, Month, Day = spec_MustParseDate(date).Date()
	defer func() { Year, Month, Day = Y, M, D }()
	f()
}

func (d *Date) spec_String() string {
	return d.Format(DateFormat)
}

func (d *Date) spec_Set(s string) (err error) {
	match := DateREX.Match([]byte(s))
	if match == nil || match["date"] != s {
		return fmt.Errorf("invalid date: %s", s)
	}
	d.Time, err = spec_parseDate(match, 0)
	return err
}

func spec_mustParseDate(match map[string]string, idx int) time.Time {
	d, err := spec_parseDate(match, idx)
	if err != nil {
		panic(err)
	}
	return d
}

func spec_MustParseDate(s string) time.Time {
	match := DateREX.Match([]byte(s))
	if match["date"] != s {
		panic(fmt.Errorf("invalid date: %s", s))
	}
	return spec_mustParseDate(match, 0)
}

func spec_parseDate(match map[string]string, idx int) (t time.Time, err error) {
	if idx > 0 {
		return t, fmt.Errorf("multiple date fields not implemented!")
	}
	// Set date to today
	y, m, d := Year, int(Month), Day
	offset := match["offset"]
	if match["ymd"] != "" {
		d, _ = strconv.Atoi(match["ymdd"])
		mm, _ := strconv.Atoi(match["ymdm"])
		if yy := match["ymdy"]; yy != "" {
			yyy, _ := strconv.Atoi(yy)
			if yyy < 100 {
				yyy = y/1000*1000 + yyy
				if yyy < y && y-yyy > 50 {
					yyy += 100
				} else if yyy > y && yyy-y > 50 {
					yyy -= 100
				}
				y = yyy
			} else {
				y = yyy
			}
		} else {
			if mm < m && m-mm > 6 {
				y += 1
			} else if m < mm && mm-m > 6 {
				y -= 1
			}
		}
		m = mm
	} else if match["ym"] != "" {
		d, m = 1, 1
		y, _ = strconv.Atoi(match["ymy"])
		if mm := match["ymm"]; mm != "" {
			m, _ = strconv.Atoi(mm)
		}
	} else if offset == "" {
		return t, fmt.Errorf("no match for date: %v", match)
	}

	t = time.Date(y, time.Month(m), d, 12, 0, 0, 0, time.UTC)
	if t.Month() != time.Month(m) || t.Day() != d {
		return t, fmt.Errorf("invalid date: %s", match["date"])
	}
	if offset != "" {
		e := len(offset) - 1
		o, _ := strconv.Atoi(offset[:e])
		switch offset[e] {
		case 'd':
			t = t.AddDate(0, 0, o)
		case 'w':
			t = t.AddDate(0, 0, o*7)
		case 'm':
			t = t.AddDate(0, o, 0)
		case 'y':
			t = t.AddDate(o, 0, 0)
		}
	}
	return t, nil
}
