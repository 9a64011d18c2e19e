"""Writes known_findings.json's list of repairs from /repo's fix commits (run by hand)."""
import json
import os
import subprocess

PROP = {  # commit -> property and what failed
    "870ffc0": ("C01", "a classifier with several keys was read back with one key holding all their names"),
    "047daf6": ("C01", "attributes nested in a global attribute were read back as global attributes themselves"),
    "ac83b96": ("C09", "a parser given a factory built traces, events and attributes with another factory, or mixed two"),
    "2e8476c": ("C01", "a timestamp was written with its zone's name and could not be read back, or read back as another instant"),
    "033e27a": ("C14", "timestamps given as milliseconds or read as milliseconds were shifted by the host's time zone"),
    "f3eb283": ("C01", "line breaks and tabs in attribute values were read back as blanks"),
    "6337dfe": ("C10", "a file whose suffix is in upper case was accepted by no parser"),
    "eb6698d": ("C19", "data of an empty MXML process, instance or entry was lost or attached to another element"),
    "b76f6d0": ("C19", "MXML files written by the library itself could not be read back: element names differed in case"),
    "af91f4b": ("C19", "transitions and timestamps written as MXML were not readable"),
    "be79724": ("C19", "attributes of the log were lost when writing MXML"),
    "a008ac0": ("C12", "clones shared nested attributes, lists and containers with their originals"),
    "1169f47": ("C15", "a summary of a log with timestamp attributes failed or changed them"),
    "55feda6": ("C15", "attributes of one key and different types or extensions were counted together"),
    "b66d7bd": ("C15", "a trace's bounds were lost when the trace had changed: its hash depended on its content"),
    "1be0098": ("C15", "a thread received the summary another thread had cached for another classifier"),
    "21d6784": ("C05", "two threads asking first for a service got two different objects"),
    "cde4637": ("C16", "an interrupted or concurrent first listing of an extension's attributes left an incomplete set"),
    "5cd5dbd": ("C18", "two threads creating one name mapping got two, losing aliases; listing while registering failed"),
    "ffe73ef": ("C18", "safe mapping with a mapping that does not exist failed"),
    "ed92abd": ("C09", "registering a factory could replace the default another thread had just set"),
    "80323d8": ("C06", "after registering an extension again or concurrently, lookups by index, name and URI disagreed"),
    "4c3bf5c": ("C07", "attributes of a definition were put at another level than declared"),
    "ea64b0e": ("C07", "loading a definition from a local file connected to its URI"),
    "17c1b85": ("C08", "the support folder could not be used when it existed already, or on other platforms"),
    "d56c394": ("C08", "a failed or cut-short download or disk write left a partial definition in the cache"),
    "2960a0a": ("C08", "cached definitions were not loaded, or one broken file prevented the others from loading"),
    "f0cde10": ("C17", "a timer measured from the load of its module and reported microseconds as milliseconds"),
    "c4ae8ed": ("C10", "after one parser failed the next one was given a consumed or closed stream"),
    "2fa1ed5": ("C15", "events missing different attributes of a classifier were put into one class"),
    "ed3710e": ("C16", "an interrupted registration of an extension, repeated, left lookups that do not find it"),
    "21b852f": ("C20", "an interrupted first registration, repeated, left a registry without a default"),
    "38b6983": ("C08", "a definition cached again while an expired one was being discarded was removed"),
    "5edbbaf": ("C22", "a date with more than six digits of a second could not be read, nor the file holding it"),
    "0cf47f2": ("C07", "a definition stored in another encoding than the host's text encoding was not loaded, or with wrong names"),
    "7efc5d9": ("C23", "a log written under the suffix xez, which the serialiser names, could be read by no parser"),
    "55b3021": ("C22", "a truth value written as 1 was read as false; dates and ids with blanks around them could not be read"),
    "a4cc33f": ("C24", "an element given an empty attribute map did not use it, and an event given one lost its identity too"),
    "4169d08": ("C25", "reading, writing, finding a parser and loading the cache failed when a message could not be printed"),
    "cdc0c93": ("C26", "infinite and undefined float values were written as inf and nan, which is no XES, and cannot be read by other programs"),
    "1c9e05e": ("C11", "inserting an event in order (and summarising a log) failed when only some of the dates had a time zone"),
    "c7cb07b": ("C22", "an extension that a document declares with its URI under an unknown prefix was not among the extensions of the log"),
    "8946f35": ("C21", "assigning no value failed for dates, levels, lengths, model references, the standard transition and the extended view"),
    "bbcf0b0": ("C21", "nested values that are zero or empty were not extracted"),
    "78c5022": ("C26", "a carriage return in a text became a line break in MXML"),
    "6e1bc2a": ("C21", "an event's activity instance was stored as its name"),
    "05fab16": ("C21", "a cost currency was stored as the element's name, and a cost type as the built-in class type"),
    "d16ad0d": ("C21", "assigning or extracting nested costs failed, and their paths were wrong"),
    "0241f9b": ("C21", "assigning an event's parent failed, as did asking for a missing one; a missing length was None"),
    "b7007b0": ("C21", "several model references were extracted as one, in lower case"),
    "dd090e4": ("C21", "the extended event turned resource, role and group into lower case"),
    "25d8d9b": ("C21", "an event without a timestamp had the timestamp -1"),
    "d2e698b": ("C21", "the extensions used by an element were never reported, or asking for them failed"),
}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
hashes = [x.split()[0] for x in log.splitlines() if x.split(" ", 1)[1].startswith("fix:")]
assert set(hashes) == set(PROP), set(hashes) ^ set(PROP)
with open(os.path.join(HERE, "known_findings.json"), "w") as f:
    json.dump({"findings": [], "fixed": ["fixed: property=%s %s %s" % (PROP[h][0], h, PROP[h][1]) for h in hashes]}, f, indent=1)
    f.write("\n")
