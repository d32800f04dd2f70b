"""Locks created by the code under test take part in generated schedules."""

from pbt.sched import install

install()
