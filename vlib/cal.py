"""Proleptic Gregorian calendar for any year (astronomical numbering), from datetime on shifted 400-year cycles."""
import datetime
EPOCH = datetime.date(1970, 1, 1).toordinal()
CYCLE = 146097
MDAYS = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)

def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)

def mdays(y, m):
    return 29 if m == 2 and leap(y) else MDAYS[m - 1]

def to_days(y, m, d):
    k = (y - 2000) // 400
    return datetime.date(y - 400 * k, m, d).toordinal() - EPOCH + k * CYCLE

def from_days(n):
    base = datetime.date(2000, 1, 1).toordinal() - EPOCH
    k = (n - base) // CYCLE
    d = datetime.date.fromordinal(n - k * CYCLE + EPOCH)
    return d.year + 400 * k, d.month, d.day

def date_text(n):
    y, m, d = from_days(n)
    return "%04d-%02d-%02d" % (y, m, d)

def time_text(sec, sep=" "):
    d, s = divmod(sec, 86400)
    return "%s%s%02d:%02d:%02d" % (date_text(d), sep, s // 3600, s // 60 % 60, s % 60)
