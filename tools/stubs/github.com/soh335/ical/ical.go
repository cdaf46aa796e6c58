// Package ical is a small stand-in for github.com/soh335/ical.
package ical

import (
	"fmt"
	"io"
	"time"
)

type VComponent interface {
	EncodeIcal(w io.Writer) error
}

type VCalendar struct {
	VERSION, PRODID, URL, NAME, X_WR_CALNAME, DESCRIPTION, X_WR_CALDESC string
	TIMEZONE_ID, X_WR_TIMEZONE, REFRESH_INTERVAL, X_PUBLISHED_TTL       string
	COLOR, CALSCALE, METHOD                                             string
	VComponent                                                          []VComponent
}

func (c *VCalendar) Encode(w io.Writer) error {
	fmt.Fprint(w, "BEGIN:VCALENDAR\r\n")
	for _, v := range c.VComponent {
		if err := v.EncodeIcal(w); err != nil {
			return err
		}
	}
	_, err := fmt.Fprint(w, "END:VCALENDAR\r\n")
	return err
}

type VEvent struct {
	UID                        string
	DTSTAMP, DTSTART, DTEND    time.Time
	SUMMARY, DESCRIPTION, TZID string
	AllDay                     bool
}

func (e *VEvent) EncodeIcal(w io.Writer) error {
	f := "20060102T150405"
	if e.AllDay {
		f = "20060102"
	}
	_, err := fmt.Fprintf(w, "BEGIN:VEVENT\r\nUID:%s\r\nDTSTART;TZID=%s:%s\r\nDTEND;TZID=%s:%s\r\nSUMMARY:%s\r\nEND:VEVENT\r\n",
		e.UID, e.TZID, e.DTSTART.Format(f), e.TZID, e.DTEND.Format(f), e.SUMMARY)
	return err
}
