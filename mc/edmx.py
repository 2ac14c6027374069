"""Small entity models and adapters for the data service checks"""
import io

from pyslet.odata2 import csdl as edm
from pyslet.odata2 import metadata as edmx
from pyslet.odata2 import memds
from pyslet.odata2 import sqlds

MULT = {'1': '1', '?': '0..1', '*': '*'}

HEAD = """<?xml version="1.0" encoding="utf-8" standalone="yes"?>
<edmx:Edmx Version="1.0"
    xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx"
    xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata">
  <edmx:DataServices m:DataServiceVersion="2.0">
    <Schema Namespace="M" xmlns="http://schemas.microsoft.com/ado/2006/04/edm">
      <EntityContainer Name="C" m:IsDefaultEntityContainer="true">
%s
      </EntityContainer>
%s
    </Schema>
  </edmx:DataServices>
</edmx:Edmx>"""

LINK = """        <EntitySet Name="As" EntityType="M.A"/>
        <EntitySet Name="Bs" EntityType="M.B"/>
        <AssociationSet Name="AB" Association="M.AB">
          <End Role="A" EntitySet="As"/><End Role="B" EntitySet="Bs"/>
        </AssociationSet>"""

TYPE = """      <EntityType Name="%s">
        <Key><PropertyRef Name="K"/></Key>
        <Property Name="K" Type="Edm.Int32" Nullable="false"/>
        <Property Name="V" Type="Edm.Int32" Nullable="true"/>
        %s
      </EntityType>"""


def association(ma, mb, nav):
    """Two entity sets and an association; nav: which ends navigate"""
    types = [
        TYPE % ('A', '<NavigationProperty Name="B" Relationship="M.AB" '
                'FromRole="A" ToRole="B"/>' if 'A' in nav else ''),
        TYPE % ('B', '<NavigationProperty Name="A" Relationship="M.AB" '
                'FromRole="B" ToRole="A"/>' if 'B' in nav else ''),
        '<Association Name="AB"><End Role="A" Type="M.A" Multiplicity="%s"/>'
        '<End Role="B" Type="M.B" Multiplicity="%s"/></Association>' % (
            MULT[ma], MULT[mb])]
    return HEAD % (LINK, '\n'.join(types))


def load(source):
    """Returns the (unbound) entity container C of the metadata"""
    doc = edmx.Document()
    doc.read(io.BytesIO(source.encode('utf-8')))
    return doc, doc.root.DataServices['M.C']


class MemStore(object):

    name = 'memds'

    def __init__(self, source):
        self.doc, self.cdef = load(source)
        self.container = memds.InMemoryEntityContainer(self.cdef)

    def __getitem__(self, name):
        return self.cdef[name]

    def snapshot(self):
        """An immutable image of everything stored"""
        c = self.container
        return (tuple((n, tuple(sorted(s.data.items())),
                       tuple(sorted(s.streams.items())),
                       tuple(sorted(s._deleting)))
                      for n, s in sorted(c.entityStorage.items())),
                tuple((n, tuple(sorted((k, tuple(sorted(v)))
                                       for k, v in x.index.items())),
                       tuple(sorted((k, tuple(sorted(v)))
                                    for k, v in x.reverseIndex.items())))
                      for n, x in sorted(c.associationStorage.items())))

    def restore(self, image):
        c = self.container
        for n, data, streams, deleting in image[0]:
            s = c.entityStorage[n]
            s.data = dict(data)
            s.streams = dict(streams)
            s._deleting = set(deleting)
        for n, index, reverse in image[1]:
            x = c.associationStorage[n]
            x.index = {k: set(v) for k, v in index}
            x.reverseIndex = {k: set(v) for k, v in reverse}

    def close(self):
        pass


_serial = [0]


def serial():
    _serial[0] += 1
    return _serial[0]


class SQLStore(object):

    name = 'sqlds'

    def __init__(self, source):
        self.doc, self.cdef = load(source)
        self.container = self.make(self.cdef)
        self.container.create_all_tables()
        con = self.container.acquire_connection()
        self.db = self.database(con)
        self.container.release_connection(con)
        self.tables = [r[0] for r in self.db.execute(
            "select name from sqlite_master where type='table' "
            "order by name")]

    def make(self, cdef):
        return sqlds.SQLiteEntityContainer(
            container=cdef, file_path='file:x%i?mode=memory' % serial(),
            max_connections=1, sqlite_options={'uri': True})

    def database(self, con):
        return con.dbc

    def __getitem__(self, name):
        return self.cdef[name]

    def snapshot(self):
        """An immutable image of everything stored"""
        return tuple((t, tuple(sorted(
            self.db.execute('select * from "%s"' % t), key=repr)))
            for t in self.tables)

    def restore(self, image):
        db = self.db
        db.rollback()
        db.execute('PRAGMA foreign_keys = OFF')
        for t, rows in image:
            db.execute('delete from "%s"' % t)
            if rows:
                db.executemany('insert into "%s" values (%s)' % (
                    t, ','.join('?' * len(rows[0]))), rows)
        db.commit()
        db.execute('PRAGMA foreign_keys = ON')

    def close(self):
        self.container.close()


STORES = {'memds': MemStore, 'sqlds': SQLStore}
KeyErrors = (KeyError, edm.NonExistentEntity)
