"""The sixth round of planted bugs: interruptions and hostile input."""
from bugs import DOWNLOADER, IMPORTER, MODELS, SERIAL, bug
from bugs2 import WLK
from bugs4 import PLAIN

SIM = ('httpsim', 'service', 'wire', 'interrupts')

bug('c42-import-left-open', 'C42', [(
	IMPORTER, "		with open(self.file_name, 'rb') as file_handle:\n", "		with _opened(self.file_name) as file_handle:\n"), (
	IMPORTER, "import collections\n", "import collections\nimport contextlib\n"), (
	IMPORTER, "class Importer(object):\n", '''@contextlib.contextmanager
def _opened(file_name):
	file_handle = open(file_name, 'rb')
	try:
		yield file_handle
	except Exception:
		file_handle.close()
		raise
	file_handle.close()


class Importer(object):
''')],
	'an interruption while a file is imported', 'The file stays open.',
	'''
import builtins, io, os, shutil, sys, tempfile
from weatherlink.importer import Importer


class Raw(io.RawIOBase):
	def readable(self):
		return True

	def readinto(self, buffer):
		raise KeyboardInterrupt()


directory = tempfile.mkdtemp()
path = os.path.join(directory, '2016-03.wlk')
original, handles = open, []


def opening(name, *args, **kwargs):
	if name != path:
		return original(name, *args, **kwargs)
	handles.append(io.BufferedReader(Raw()))
	return handles[-1]


try:
	original(path, 'wb').close()
	builtins.open = io.open = opening
	try:
		Importer(path).import_data()
	except KeyboardInterrupt as e:
		if any(not h.closed for h in handles):
			sys.exit('the file is still open')
finally:
	builtins.open = io.open = original
	shutil.rmtree(directory)
''')

bug('c42-download-keeps-partial', 'C42', [(
	DOWNLOADER, "			record = ArchiveIntervalRecord.load_from_download(download_response_handle, self.record_minute_span)\n", '''			try:
				record = ArchiveIntervalRecord.load_from_download(download_response_handle, self.record_minute_span)
			except KeyboardInterrupt:
				record = None
''')],
	'Ctrl-C while records are being received', 'The download seems complete, and the program goes on.',
	PLAIN + '''
import random
from wlmon import httpsim, interrupts, service, wire
from weatherlink.downloader import Downloader

rng = random.Random(1)
archive = [(datetime.datetime(2016, 3, 5, 12, i), wire.encode_download(wire.plausible_raw(wire.DOWNLOAD, rng), datetime.datetime(2016, 3, 5, 12, i), rng)) for i in range(6)]
served = service.Service(rng, archive, 1)
points = interrupts.Points(4, 'before', KeyboardInterrupt())


def handler(request):
	answer = served(request)
	return interrupts.body(answer, points, 64) if request.parameters['action'] == 'data' else answer


with httpsim.Transport(handler):
	try:
		Downloader('user', 'pass', 'token').download(0)
	except KeyboardInterrupt:
		pass
	else:
		sys.exit('Ctrl-C did nothing')
''', lib=SIM)

bug('c42-connect-interrupted', 'C42', [(
	SERIAL, "			self._socket.connect((self.host, self.port, ))\n		except:\n", "			self._socket.connect((self.host, self.port, ))\n		except Exception:\n")],
	'Ctrl-C while connecting to the console', 'The communicator thinks it is connected, to a socket that is not.',
	PLAIN + '''
import socket
from weatherlink.poller import IPPoller


def connect(*_):
	raise KeyboardInterrupt()


poller = IPPoller('127.0.0.1', 1)
socket.socket.connect = connect
try:
	poller.connect()
except KeyboardInterrupt:
	pass
finally:
	del socket.socket.connect
listener = socket.socket()
listener.bind(('127.0.0.1', 0))
listener.listen(1)
poller.port = listener.getsockname()[1]
try:
	poller.connect()
except ValueError as e:
	sys.exit(str(e))
poller.disconnect()
''')

bug('c43-waits-for-the-rest', 'C43', [(
	MODELS, "		data = socket_file.read(cls.RECORD_LENGTH)\n", '''		data = b''
		while len(data) < cls.RECORD_LENGTH:
			data += socket_file.read(cls.RECORD_LENGTH - len(data))
''')],
	'a connection that ends within a packet', 'Polling never ends.',
	PLAIN + '''
class Handle(object):
	left = 1000

	def read(self, length):
		self.left -= 1
		if not self.left:
			sys.exit('it never stops reading')
		return b'LOO' if self.left == 999 else b''


try:
	models.LoopRecord.load_loop_2_from_connection(Handle())
except Exception as e:
	pass
''')

bug('c43-skips-what-is-missing', 'C43', [(
	IMPORTER, "							record = ArchiveIntervalRecord.load_from_wlk(file_handle, self.year, self.month, day)\n", '''							try:
								record = ArchiveIntervalRecord.load_from_wlk(file_handle, self.year, self.month, day)
							except struct.error:
								continue
'''), (
	IMPORTER, "import collections\n", "import collections\nimport struct\n")],
	'a short file whose index announces many records', 'The import works through every record announced.',
	WLK + '''
from weatherlink import importer

directory = tempfile.mkdtemp()
path = os.path.join(directory, '2016-04.wlk')
with open(path, 'wb') as f:
	f.write(struct.pack('=16sl', b'WDAT5.3', 1) + struct.pack('=hl', 32767, 0) * 32 + bytes(SUMMARY))
lines = [0]


def trace(frame, event, argument):
	lines[0] += 1
	return trace if frame.f_code.co_filename == importer.__file__ else None


i = Importer(path)
sys.settrace(trace)
try:
	i.import_data()
except Exception:
	pass
sys.settrace(None)
os.unlink(path)
os.rmdir(directory)
if lines[0] > 20000:
	sys.exit('%d steps for a file of %d bytes' % (lines[0], 212 + len(SUMMARY)))
''')
