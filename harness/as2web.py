"""A web of documents, in place of the network.

Every request the requests library sends ends here: the ActivityStreams
context is always served, other urls as told, and what was asked for is noted.
"""
import json
import requests
from requests.adapters import HTTPAdapter

NS = 'https://www.w3.org/ns/activitystreams'
TYPES = """Accept Activity IntransitiveActivity Add Announce Application Arrive
Article Audio Block Collection CollectionPage Relationship Create Delete
Dislike Document Event Follow Flag Group Ignore Image Invite Join Leave Like
Link Listen Mention Move Note Object Offer OrderedCollection
OrderedCollectionPage Organization Page Person Place Profile Question Read
Reject Remove Service TentativeAccept TentativeReject Tombstone Travel Undo
Update Video View""".split()
REFS = """attributedTo attachment icon image url actor object target result
origin instrument inReplyTo replies bto cc to bcc audience current first last
next prev partOf items generator location context tag preview oneOf anyOf
subject relationship describes formerType href""".split()


def context():
    """What matters of https://www.w3.org/ns/activitystreams."""
    c = {'@vocab': '_:', 'as': NS + '#', 'id': '@id', 'type': '@type',
         'xsd': 'http://www.w3.org/2001/XMLSchema#'}
    for t in TYPES:
        c[t] = 'as:' + t
    for n in REFS:
        c[n] = {'@id': 'as:' + n, '@type': '@id'}
    c['orderedItems'] = {'@id': 'as:items', '@type': '@id',
                         '@container': '@list'}
    for n in 'accuracy altitude latitude longitude radius'.split():
        c[n] = {'@id': 'as:' + n, '@type': 'xsd:float'}
    for n in 'totalItems startIndex height width'.split():
        c[n] = {'@id': 'as:' + n, '@type': 'xsd:nonNegativeInteger'}
    for n in 'published updated startTime endTime deleted closed'.split():
        c[n] = {'@id': 'as:' + n, '@type': 'xsd:dateTime'}
    c['duration'] = {'@id': 'as:duration', '@type': 'xsd:duration'}
    for n in 'content name summary mediaType rel units hreflang'.split():
        c[n] = 'as:' + n
    for n in 'content name summary'.split():
        c[n + 'Map'] = {'@id': 'as:' + n, '@container': '@language'}
    return {'@context': c}


CONTEXT = context()
docs = {}       # url -> (body, headers, final url)
asked = []      # (url, headers) of what was requested


def is_context(url):
    return url.split('#')[0] in (NS, NS.replace('https', 'http'))


def _send(self, request, *a, **kw):
    url = request.url
    asked.append((url, dict(request.headers)))
    if url in docs:
        body, headers, final = docs[url]
    elif is_context(url):
        body, headers, final = json.dumps(CONTEXT), {
            'content-type': 'application/ld+json'}, url
    else:
        raise requests.ConnectionError(f'nothing at {url}')
    r = requests.Response()
    r.status_code = 200
    r._content = body.encode()
    r.encoding = 'utf-8'
    r.headers.update(headers)
    r.url = final
    r.request = request
    r.connection = self
    return r


HTTPAdapter.send = _send


def serve(url, doc, headers=None, final=None):
    docs[url] = (doc if isinstance(doc, str) else json.dumps(doc),
                 headers if headers is not None else
                 {'content-type': 'application/activity+json'}, final or url)
