import importlib


def load(check_id):
	module = importlib.import_module('wlmon.checks.%s' % check_id.lower())
	return module.CHECK()
